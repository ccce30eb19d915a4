// Uses the function templates that take and give no-data values, so that their instances can be analysed
#include "lue/data_model/hl/raster_view.hpp"
#include <cstdint>

namespace lue::data_model {

template<typename Element>
auto use(Array& array, constant::RasterView<Dataset*>& constant, variable::RasterView<Dataset*>& variable, Element const value) -> bool
{
    hdf5::Dataset::CreationPropertyList creation_property_list{};
    creation_property_list.set_fill_value<Element>(value);
    constant.template add_layer<Element>("a");
    constant.template add_layer<Element>("b", value);
    variable.template add_layer<Element>("c");
    array.set_no_data_value<Element>(value);

    return array.has_no_data_value() && array.no_data_value<Element>() == value && creation_property_list.get_fill_value<Element>() == value;
}

auto use(Array& array, constant::RasterView<Dataset*>& constant, variable::RasterView<Dataset*>& variable) -> bool
{
    return use<bool>(array, constant, variable, true) && use<std::uint8_t>(array, constant, variable, 1) && use<std::int8_t>(array, constant, variable, 1) &&
           use<std::uint16_t>(array, constant, variable, 1) && use<std::int16_t>(array, constant, variable, 1) && use<std::uint32_t>(array, constant, variable, 1) &&
           use<std::int32_t>(array, constant, variable, 1) && use<std::uint64_t>(array, constant, variable, 1) && use<std::int64_t>(array, constant, variable, 1) &&
           use<float>(array, constant, variable, 1) && use<double>(array, constant, variable, 1);
}

}  // namespace lue::data_model
