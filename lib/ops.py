BOOL, I8, U8, I16, U16, I32, U32, I64, U64 = 1, 3, 4, 5, 6, 7, 8, 9, 10
F16, F32, F64 = 13, 14, 15
OPS = "Neg Not Sqrt Abs Add Sub Mul Div Mod MulHi MulWide Fma Min Max FMin FMax Copysign Ceil Floor Round Trunc Eq Neq Lt Le Gt Ge Select Popc Clz Ctz Brev And Or Xor Shl Shr Rcp Rsqrt".split()
NAMES = {1: "bool", 3: "i8", 4: "u8", 5: "i16", 6: "u16", 7: "i32", 8: "u32", 9: "i64", 10: "u64", 13: "f16", 14: "f32", 15: "f64"}
INTS = [I8, U8, I16, U16, I32, U32, I64, U64]
FLTS = [F16, F32, F64]
ALL = [BOOL] + INTS + FLTS
SIZE = {1: 1, 3: 1, 4: 1, 5: 2, 6: 2, 7: 4, 8: 4, 9: 8, 10: 8, 13: 2, 14: 4, 15: 8}
UNARY = set("Neg Not Sqrt Abs Ceil Floor Round Trunc Popc Clz Ctz Brev Rcp Rsqrt".split())
def ok(name, t):
    """Is the operation defined for operands of this type?"""
    if t in FLTS:
        return name not in ("Mod", "MulHi", "MulWide", "Popc", "Clz", "Ctz", "Brev", "Shl", "Shr")
    if name in ("Sqrt", "Ceil", "Floor", "Round", "Trunc", "Rcp", "Rsqrt"): return False
    if t == BOOL: return name in ("Not", "And", "Or", "Xor", "Select", "Eq", "Neq")
    if name == "MulWide": return t in (I32, U32)
    if name == "MulHi": return SIZE[t] >= 4
    return True
def arity(name):
    return 1 if name in UNARY else 3 if name in ("Fma", "Select") else 2
