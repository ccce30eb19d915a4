// Uses the function templates of the GDAL component, so that their instances can be analysed
#include "lue/gdal.hpp"
#include "lue/gdal/library.hpp"
#include "lue/gdal/raster.hpp"
#include "lue/gdal/type_traits.hpp"
#include <cstdint>

namespace lue::gdal {

template<typename Element>
auto element_data_type() -> GDALDataType
{
    return data_type_v<Element>;
}

template<typename Element>
auto use(Raster::Band& band) -> bool
{
    verify_support<Element>();
    band.set_no_data_value<Element>(Element{});
    auto const [value, valid] = band.no_data_value<Element>();
    return supports<Element>() && valid && value == Element{} && element_data_type<Element>() == band.data_type();
}

auto use(Raster::Band& band) -> bool
{
    return use<std::uint8_t>(band) && use<std::int8_t>(band) && use<std::uint16_t>(band) && use<std::int16_t>(band) && use<std::uint32_t>(band) &&
           use<std::int32_t>(band) && use<std::uint64_t>(band) && use<std::int64_t>(band) && use<float>(band) && use<double>(band);
}

}  // namespace lue::gdal
