"""Facts about the HDF5 and GDAL C APIs used by several rules (from their reference manuals)."""
# call that yields an identifier -> its close call
ACQUIRE = {
    "H5Fopen": "H5Fclose", "H5Fcreate": "H5Fclose", "H5Iget_file_id": "H5Fclose", "H5Freopen": "H5Fclose",
    "H5Gopen2": "H5Gclose", "H5Gcreate2": "H5Gclose", "H5Gopen1": "H5Gclose", "H5Gcreate1": "H5Gclose", "H5Gcreate_anon": "H5Gclose",
    "H5Dopen2": "H5Dclose", "H5Dcreate2": "H5Dclose", "H5Dopen1": "H5Dclose", "H5Dcreate1": "H5Dclose", "H5Dcreate_anon": "H5Dclose",
    "H5Dget_create_plist": "H5Pclose", "H5Dget_access_plist": "H5Pclose", "H5Pcreate": "H5Pclose", "H5Pcopy": "H5Pclose",
    "H5Fget_create_plist": "H5Pclose", "H5Fget_access_plist": "H5Pclose", "H5Gget_create_plist": "H5Pclose",
    "H5Dget_type": "H5Tclose", "H5Aget_type": "H5Tclose", "H5Tcopy": "H5Tclose", "H5Tcreate": "H5Tclose",
    "H5Tdecode": "H5Tclose", "H5Tget_native_type": "H5Tclose", "H5Topen2": "H5Tclose", "H5Tget_super": "H5Tclose", "H5Tvlen_create": "H5Tclose",
    "H5Tget_member_type": "H5Tclose", "H5Tarray_create2": "H5Tclose",
    "H5Screate": "H5Sclose", "H5Screate_simple": "H5Sclose", "H5Scopy": "H5Sclose", "H5Dget_space": "H5Sclose", "H5Aget_space": "H5Sclose",
    "H5Acreate2": "H5Aclose", "H5Aopen": "H5Aclose", "H5Aopen_by_name": "H5Aclose", "H5Aopen_name": "H5Aclose", "H5Acreate1": "H5Aclose",
    "H5Oopen": "H5Oclose", "H5Oopen_by_addr": "H5Oclose", "H5Oopen_by_idx": "H5Oclose",
}
CLOSERS = set(ACQUIRE.values()) | {"H5Idec_ref", "H5Eclose_stack", "H5Ldelete_not"} - {"H5Ldelete_not"}

# calls that change a file
MUTATE = {
    "H5Fcreate", "H5Gcreate2", "H5Gcreate1", "H5Gcreate_anon", "H5Dcreate2", "H5Dcreate1", "H5Dcreate_anon", "H5Dwrite", "H5Dwrite_chunk", "H5Dset_extent", "H5Dextend",
    "H5Dfill_not", "H5Acreate2", "H5Acreate1", "H5Acreate_by_name", "H5Awrite", "H5Adelete", "H5Adelete_by_name",
    "H5Adelete_by_idx", "H5Arename", "H5Arename_by_name", "H5Lcreate_hard", "H5Lcreate_soft", "H5Lcreate_external",
    "H5Lcreate_ud", "H5Ldelete", "H5Ldelete_by_idx", "H5Lmove", "H5Lcopy", "H5Olink", "H5Ocopy", "H5Tcommit2",
    "H5Oset_comment", "H5Oset_comment_by_name", "H5Oincr_refcount", "H5Odecr_refcount", "H5Fdelete", "H5Gunlink", "H5Gmove", "H5Fmount",
}
