
#ifndef LUE_GDAL_EXPORT_H
#define LUE_GDAL_EXPORT_H

#ifdef LUE_GDAL_STATIC_DEFINE
#  define LUE_GDAL_EXPORT
#  define LUE_GDAL_NO_EXPORT
#else
#  ifndef LUE_GDAL_EXPORT
#    ifdef lue_gdal_EXPORTS
        /* We are building this library */
#      define LUE_GDAL_EXPORT __attribute__((visibility("default")))
#    else
        /* We are using this library */
#      define LUE_GDAL_EXPORT __attribute__((visibility("default")))
#    endif
#  endif

#  ifndef LUE_GDAL_NO_EXPORT
#    define LUE_GDAL_NO_EXPORT __attribute__((visibility("hidden")))
#  endif
#endif

#ifndef LUE_GDAL_DEPRECATED
#  define LUE_GDAL_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef LUE_GDAL_DEPRECATED_EXPORT
#  define LUE_GDAL_DEPRECATED_EXPORT LUE_GDAL_EXPORT LUE_GDAL_DEPRECATED
#endif

#ifndef LUE_GDAL_DEPRECATED_NO_EXPORT
#  define LUE_GDAL_DEPRECATED_NO_EXPORT LUE_GDAL_NO_EXPORT LUE_GDAL_DEPRECATED
#endif

/* NOLINTNEXTLINE(readability-avoid-unconditional-preprocessor-if) */
#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef LUE_GDAL_NO_DEPRECATED
#    define LUE_GDAL_NO_DEPRECATED
#  endif
#endif

#endif /* LUE_GDAL_EXPORT_H */
