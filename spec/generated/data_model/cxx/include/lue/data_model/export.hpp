
#ifndef LUE_DATA_MODEL_EXPORT_H
#define LUE_DATA_MODEL_EXPORT_H

#ifdef LUE_DATA_MODEL_STATIC_DEFINE
#  define LUE_DATA_MODEL_EXPORT
#  define LUE_DATA_MODEL_NO_EXPORT
#else
#  ifndef LUE_DATA_MODEL_EXPORT
#    ifdef lue_data_model_EXPORTS
        /* We are building this library */
#      define LUE_DATA_MODEL_EXPORT __attribute__((visibility("default")))
#    else
        /* We are using this library */
#      define LUE_DATA_MODEL_EXPORT __attribute__((visibility("default")))
#    endif
#  endif

#  ifndef LUE_DATA_MODEL_NO_EXPORT
#    define LUE_DATA_MODEL_NO_EXPORT __attribute__((visibility("hidden")))
#  endif
#endif

#ifndef LUE_DATA_MODEL_DEPRECATED
#  define LUE_DATA_MODEL_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef LUE_DATA_MODEL_DEPRECATED_EXPORT
#  define LUE_DATA_MODEL_DEPRECATED_EXPORT LUE_DATA_MODEL_EXPORT LUE_DATA_MODEL_DEPRECATED
#endif

#ifndef LUE_DATA_MODEL_DEPRECATED_NO_EXPORT
#  define LUE_DATA_MODEL_DEPRECATED_NO_EXPORT LUE_DATA_MODEL_NO_EXPORT LUE_DATA_MODEL_DEPRECATED
#endif

/* NOLINTNEXTLINE(readability-avoid-unconditional-preprocessor-if) */
#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef LUE_DATA_MODEL_NO_DEPRECATED
#    define LUE_DATA_MODEL_NO_DEPRECATED
#  endif
#endif

#endif /* LUE_DATA_MODEL_EXPORT_H */
