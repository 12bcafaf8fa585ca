def mod():
    o=[]
    o.append('''// ---- bit operations told bit by bit (second proof strategy, see DESIGN.md); generated by tools/genbits.py ----
pub mod vbits {
#![allow(unused_imports)]
use vstd::prelude::*;
verus! {
/// bit i of a number below 65536; opaque outside this module: the lemmas below say all that is needed
pub closed spec fn bit(v: int, i: int) -> bool { ((v as u16) >> (i as u16)) & 1u16 == 1 }
''')
    for w in (8,16):
        dec=" + ".join(f"(if bit(v, {i}) {{ {1<<i}int }} else {{ 0 }})" for i in range(w))
        o.append(f"pub open spec fn dec{w}(v: int) -> bool {{ v == {dec} }}\n")
    # dec16 for u16
    def dec(w):
        T=f"u{w}"
        o.append(f"pub proof fn lem_dec{w}(x: {T}) ensures dec{w}(x as int)\n{{\n    let y = x as u16;\n")
        s2=f"(y & 1u16)"
        for i in range(1,w): s2=f"add({s2}, mul((y >> {i}u16) & 1u16, {1<<i}u16))"
        lim = "y < 256 ==> " if w==8 else ""
        o.append(f"    assert({lim}y == {s2}) by (bit_vector);\n")
        for i in range(w): o.append(f"    assert((y >> {i}u16) & 1u16 == 0 || (y >> {i}u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, {i}) == ((y >> {i}u16) & 1u16 == 1));\n")
        o.append("    assert(y >> 0u16 == y) by (bit_vector);\n")
        o.append("}\n")
    dec(8); dec(16)
    for w in (8,16):
        T=f"u{w}"
        for nm,op,f in (("and","&","&&"),("or","|","||"),("xor","^","!=")):
            con=", ".join(f"bit((x {op} m) as int, {i}) == (bit(x as int, {i}) {f} bit(m as int, {i}))" for i in range(w))
            o.append(f"pub broadcast proof fn bl_{nm}{w}(x: {T}, m: {T}) ensures #![trigger x {op} m] dec{w}(x as int), dec{w}(m as int), dec{w}((x {op} m) as int), {con}\n{{\n    hide(dec{w}); lem_dec{w}(x); lem_dec{w}(m); lem_dec{w}(x {op} m); let (y, n) = (x as u16, m as u16);\n")
            o.append(f"    assert((x {op} m) as u16 == (x as u16) {op} (m as u16)) by (bit_vector);\n")
            for i in range(w):
                o.append(f"    assert((((y {op} n) >> {i}u16) & 1u16 == 1) == (((y >> {i}u16) & 1u16 == 1) {f} ((n >> {i}u16) & 1u16 == 1))) by (bit_vector);\n")
            o.append("}\n")
        for nm,op in (("shl","<<"),("shr",">>")):
            ens=[];pf=[]
            for k in range(w):
                c=[]
                o.append(f"proof fn bl_{nm}{w}_{k}(x: {T}) ensures dec{w}((x {op} {k}{T}) as int)")
                for i in range(w):
                    j=i-k if nm=="shl" else i+k
                    c.append(f"bit((x {op} {k}{T}) as int, {i}) == "+(f"bit(x as int, {j})" if 0<=j<w else "false"))
                o.append(", "+", ".join(c)+f"\n{{\n    hide(dec{w}); lem_dec{w}(x {op} {k}{T}); let (y, z) = (x as u16, (x {op} {k}{T}) as u16);\n")
                mask="" if w==16 else " & 0xffu16"
                o.append(f"    assert((x {op} {k}{T}) as u16 == ((x as u16) {op} {k}u16){mask}) by (bit_vector);\n")
                for i in range(w):
                    j=i-k if nm=="shl" else i+k
                    rhs=f"((y >> {j}u16) & 1u16 == 1)" if 0<=j<w else "false"
                    lim = "y < 256 ==> " if w==8 else ""
                    o.append(f"    assert({lim}((((((y {op} {k}u16){mask}) >> {i}u16) & 1u16) == 1) == {rhs})) by (bit_vector);\n")
                o.append("}\n")
                ens.append(f"k == {k} ==> dec{w}((x {op} k) as int) && "+" && ".join(c).replace(f"{op} {k}{T}",f"{op} k"))
                pf.append(f"    if k == {k} {{ bl_{nm}{w}_{k}(x); }}\n")
            o.append(f"pub broadcast proof fn bl_{nm}{w}(x: {T}, k: {T}) ensures #![trigger x {op} k] dec{w}(x as int), "+",\n    ".join(ens)+f"\n{{\n    hide(dec{w}); hide(bit); lem_dec{w}(x);\n"+"".join(pf)+"}\n")
    # division and remainder by powers of two
    for nm,op in (("mod","%"),("div","/")):
        ens=[];pf=[]
        for k in range(1,13):
            c=[]
            o.append(f"proof fn bl_{nm}_{k}(x: int) requires 0 <= x < 65536 ensures ")
            for i in range(16):
                j=i if nm=="mod" else i+k
                ok = i<k if nm=="mod" else j<16
                c.append(f"bit(x {op} {1<<k}, {i}) == "+(f"bit(x, {j})" if ok else "false"))
            o.append(", ".join(c)+f", dec16(x {op} {1<<k})\n{{\n    hide(dec16); let (y, z) = (x as u16, (x {op} {1<<k}) as u16); lem_dec16(z);\n")
            o.append(f"    assert(y {op} {1<<k}u16 == z);\n")
            for i in range(16):
                j=i if nm=="mod" else i+k
                ok = i<k if nm=="mod" else j<16
                rhs=f"((y >> {j}u16) & 1u16 == 1)" if ok else "false"
                o.append(f"    assert(((((y {op} {1<<k}u16) >> {i}u16) & 1u16) == 1) == {rhs}) by (bit_vector);\n")
            o.append("}\n")
            ens.append(f"0 <= x < 65536 && c == {1<<k} ==> dec16(x {op} c) && "+" && ".join(c).replace(f"{op} {1<<k}",f"{op} c"))
            pf.append(f"    if 0 <= x < 65536 && c == {1<<k} {{ bl_{nm}_{k}(x); }}\n")
        o.append(f"pub broadcast proof fn bl_{nm}(x: int, c: int) ensures #![trigger x {op} c] 0 <= x < 65536 ==> dec16(x), "+",\n    ".join(ens)+f"\n{{\n    hide(dec16); hide(bit); if 0 <= x < 65536 {{ lem_dec16(x as u16); }}\n"+"".join(pf)+"}\n")
    o.append("pub broadcast group group_bits { bl_and8, bl_or8, bl_xor8, bl_shl8, bl_shr8, bl_and16, bl_or16, bl_xor16, bl_shl16, bl_shr16 }\npub broadcast group group_bits_div { bl_and8, bl_or8, bl_xor8, bl_shl8, bl_shr8, bl_and16, bl_or16, bl_xor16, bl_shl16, bl_shr16, bl_mod, bl_div }\n}\n}\n")
    return "".join(o)
if __name__ == "__main__":
    print(mod(), end="")
