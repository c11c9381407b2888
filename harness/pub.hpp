// a publisher that shows what publishers may do
#ifndef PUB_HPP
#define PUB_HPP
#include <cxxmetrics/metrics_registry.hpp>
template<typename TRepo = cxxmetrics::default_repository>
struct open_publisher : public cxxmetrics::metrics_publisher<TRepo>
{
    using base = cxxmetrics::metrics_publisher<TRepo>;
    open_publisher(cxxmetrics::metrics_registry<TRepo>& r) : base(r) { }
    using base::effective_options;
    using base::get_data;
    using base::get_data_for;
    using base::has_data_for;
    using base::has_metric;
    using base::metric_type;
    using base::visit_one;
    using base::visit_all;
};
#endif
