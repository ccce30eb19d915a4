// Uses the header-only class templates of the data model, so that their members can be analysed
#include "lue/core/configuration.hpp"
#include "lue/core/index_range.hpp"
#include "lue/core/time.hpp"
#include "lue/navigate.hpp"
#include "lue/object/space_domain.hpp"
#include "lue/object/time_domain.hpp"

namespace lue::data_model {

template<typename Unit>
auto use(time::Epoch const& epoch) -> bool
{
    using TickPeriod = time::TickPeriod<Unit>;
    using Duration = time::Duration<TickPeriod>;
    using Clock = time::Clock<TickPeriod>;
    using TimePoint = time::TimePoint<Clock>;

    TickPeriod const one{};
    TickPeriod const tick_period{3};
    Duration const duration{4};
    Duration const other{duration};
    Clock clock{epoch, tick_period};
    TimePoint const time_point{duration};

    return clock.nr_units(time_point) == time_point.nr_ticks() * clock.tick_period().nr_units() * one.nr_units() && duration == other &&
           time_point.duration() == duration && duration.nr_ticks() == 4 && clock.epoch() == epoch;
}

auto use(time::Epoch const& epoch) -> bool
{
    return use<time::Second>(epoch) && use<time::Day>(epoch);
}

auto use(IndexRange const& range) -> hsize_t
{
    return IndexRange{range.begin(), range.end()}.size();
}

auto use(SpaceConfiguration const& lhs, SpaceConfiguration const& rhs) -> bool
{
    return lhs == rhs && lhs != rhs;
}

auto use(Aspect<Mobility> const& lhs, Aspect<Mobility> const& rhs) -> bool
{
    return lhs == rhs;
}

auto use(PropertyGroup const& group, std::string const& path) -> hsize_t
{
    return property_set(group).properties().contains(path) + property_sets(group).size() + phenomena_group(group).has_parent() + dataset_group(group).has_parent() +
           property(group, path).has_parent();
}

}  // namespace lue::data_model
