#pragma once


/* #undef HDF5_IS_PARALLEL */
#define HDF5_IS_THREADSAFE


namespace lue::hdf5 {

    class BuildOptions
    {

        public:

            static constexpr bool hdf5_is_parallel{
#ifdef HDF5_IS_PARALLEL
                    true
#else
                    false
#endif
                };

            static constexpr bool hdf5_is_threadsafe{
#ifdef HDF5_IS_THREADSAFE
                    true
#else
                    false
#endif
                };

        };

} // namespace lue::hdf5
