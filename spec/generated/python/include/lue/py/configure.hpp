#pragma once
#include <cstdint>


#define Python_VERSION "3.12.3"
#define Python_VERSION_MAJOR 3
#define Python_VERSION_MINOR 12
#define Python_VERSION_PATCH 3


namespace lue::py {

    class BuildOptions
    {

        public:

            static constexpr std::int32_t python_version{
                10000 * Python_VERSION_MAJOR + 100 * Python_VERSION_MINOR + Python_VERSION_PATCH};

    };

}  // namespace lue::py
