"""Kinds and widths of the element types (HDF5, C++, GDAL, Python names)."""

HDF5 = {}
for w in (8, 16, 32, 64):
    HDF5[f"H5T_NATIVE_UINT{w}_g"] = ("u", w, "native")
    HDF5[f"H5T_NATIVE_INT{w}_g"] = ("i", w, "native")
    for o in ("LE", "BE"):
        HDF5[f"H5T_STD_U{w}{o}_g"] = ("u", w, o)
        HDF5[f"H5T_STD_I{w}{o}_g"] = ("i", w, o)
for w, n in ((32, "FLOAT"), (64, "DOUBLE")):
    HDF5[f"H5T_NATIVE_{n}_g"] = ("f", w, "native")
    for o in ("LE", "BE"):
        HDF5[f"H5T_IEEE_F{w}{o}_g"] = ("f", w, o)
HDF5.update({
    "H5T_NATIVE_SCHAR_g": ("i", 8, "native"), "H5T_NATIVE_UCHAR_g": ("u", 8, "native"), "H5T_NATIVE_SHORT_g": ("i", 16, "native"),
    "H5T_NATIVE_USHORT_g": ("u", 16, "native"), "H5T_NATIVE_INT_g": ("i", 32, "native"), "H5T_NATIVE_UINT_g": ("u", 32, "native"),
    "H5T_NATIVE_LONG_g": ("i", 64, "native"), "H5T_NATIVE_ULONG_g": ("u", 64, "native"), "H5T_NATIVE_LLONG_g": ("i", 64, "native"),
    "H5T_NATIVE_ULLONG_g": ("u", 64, "native"), "H5T_NATIVE_HSIZE_g": ("u", 64, "native"), "H5T_C_S1_g": ("s", 0, "text"),
})
# LP64
CXX = {
    "unsigned char": ("u", 8), "unsigned short": ("u", 16), "unsigned int": ("u", 32), "unsigned long": ("u", 64), "unsigned long long": ("u", 64),
    "signed char": ("i", 8), "char": ("i", 8), "short": ("i", 16), "int": ("i", 32), "long": ("i", 64), "long long": ("i", 64), "float": ("f", 32), "double": ("f", 64),
    "std::basic_string<char, std::char_traits<char>, std::allocator<char>>": ("s", 0), "bool": ("b", 8),
}
GDAL = {
    "GDT_Byte": ("u", 8), "GDT_Int8": ("i", 8), "GDT_UInt16": ("u", 16), "GDT_Int16": ("i", 16), "GDT_UInt32": ("u", 32), "GDT_Int32": ("i", 32),
    "GDT_UInt64": ("u", 64), "GDT_Int64": ("i", 64), "GDT_Float32": ("f", 32), "GDT_Float64": ("f", 64),
    "GDT_CInt16": ("ci", 16), "GDT_CInt32": ("ci", 32), "GDT_CFloat32": ("cf", 32), "GDT_CFloat64": ("cf", 64), "GDT_Unknown": None,
}
NUMERIC = [("u", 8), ("u", 16), ("u", 32), ("u", 64), ("i", 8), ("i", 16), ("i", 32), ("i", 64), ("f", 32), ("f", 64)]


def cxx(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    while t and t[-1] in "&* ":
        t = t[:-1]
    return CXX.get(t)


def hdf5_of(t):
    """(kind, width, order) a term denotes when it mentions exactly one HDF5 type constant."""
    from flow import subterms
    hit = {HDF5[x[1]] for x in subterms(t) if len(x) > 1 and x[0] == "glob" and x[1] in HDF5}
    return hit.pop() if len(hit) == 1 else None


def words(t):
    k = {"u": "unsigned", "i": "signed", "f": "floating point", "s": "text"}.get(t[0], t[0])
    return f"{k} {t[1]} bit" + (f" {t[2]}" if len(t) > 2 else "") if t else str(t)
