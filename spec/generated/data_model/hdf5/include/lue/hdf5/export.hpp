
#ifndef LUE_HDF5_EXPORT_H
#define LUE_HDF5_EXPORT_H

#ifdef LUE_HDF5_STATIC_DEFINE
#  define LUE_HDF5_EXPORT
#  define LUE_HDF5_NO_EXPORT
#else
#  ifndef LUE_HDF5_EXPORT
#    ifdef lue_hdf5_EXPORTS
        /* We are building this library */
#      define LUE_HDF5_EXPORT __attribute__((visibility("default")))
#    else
        /* We are using this library */
#      define LUE_HDF5_EXPORT __attribute__((visibility("default")))
#    endif
#  endif

#  ifndef LUE_HDF5_NO_EXPORT
#    define LUE_HDF5_NO_EXPORT __attribute__((visibility("hidden")))
#  endif
#endif

#ifndef LUE_HDF5_DEPRECATED
#  define LUE_HDF5_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef LUE_HDF5_DEPRECATED_EXPORT
#  define LUE_HDF5_DEPRECATED_EXPORT LUE_HDF5_EXPORT LUE_HDF5_DEPRECATED
#endif

#ifndef LUE_HDF5_DEPRECATED_NO_EXPORT
#  define LUE_HDF5_DEPRECATED_NO_EXPORT LUE_HDF5_NO_EXPORT LUE_HDF5_DEPRECATED
#endif

/* NOLINTNEXTLINE(readability-avoid-unconditional-preprocessor-if) */
#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef LUE_HDF5_NO_DEPRECATED
#    define LUE_HDF5_NO_DEPRECATED
#  endif
#endif

#endif /* LUE_HDF5_EXPORT_H */
