#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Counter updates are never lost or misapplied",
  "Whatever the interleaving, concurrent counter operations (increment, decrement, add, subtract, set, read, snapshot) behave as if each took effect at one instant between its call and its return; every update call returns, or leaves behind, exactly the value that such an order implies. In particular the final value is the initial value plus the sum of all signed amounts, for signed and unsigned integer counters. Moving a counter moves its count and leaves zero behind.",
  ["schedules", "histories"], "all interleavings of 2-3 threads doing 1-2 operations each, and all single-threaded operation sequences up to a depth",
  "The tests increment one counter from one thread; no interleaving is exercised.",
  ["cxxmetrics/counter.hpp"], [("atomic read-modify-write of the value", "counter::incr"), ("operators built on incr", "counter operators ++ -- += -=")])

p("C02", "A registered name and tag set always denotes one and the same metric",
  "Asking a registry for a metric by name and tag set yields the same metric object for every caller, thread and moment, no matter in which order the tags were listed, whether it was obtained before, or whether several threads ask for the first time at once; different names or different tag sets (equal keys with values of equal type and value make equal sets) yield different metric objects. Construction arguments only matter for the call that creates the metric, and registering an existing metric succeeds exactly when that name and tag set was still free; registering no metric (a null pointer) fails without effect.",
  ["schedules", "inputs", "histories"], "all interleavings of concurrent first lookups; all sequences of lookups/registrations over a small set of names and all tag sets up to 3 tags in every listing order",
  "The tests look up a handful of names from one thread, with one tag, in one order.",
  ["cxxmetrics/metrics_registry.hpp", "cxxmetrics/tag_collection.hpp", "cxxmetrics/metric_path.hpp"],
  [("get-or-add under the repository lock", "basic_default_repository::get_or_add"), ("per-tag child map", "registered_metric::child"), ("hash and equality of tag sets and paths", "std::hash<tag_collection>, tag_collection::operator==, std::hash<metric_path>")])

p("C03", "A name is bound to one metric type; mismatches are rejected without effect",
  "Once a name is registered with a metric type, every request for it under another metric type (another kind, value type, aggregation, reservoir, or window set) throws the type-mismatch error, naming the existing and the desired type, and leaves the registry and the existing metric's values unchanged; requests with the same type keep working. Listing the same meter windows in another order or repeatedly is the same type.",
  ["inputs", "histories", "schedules"], "all ordered pairs of metric types from a representative set, in all short registration sequences, and two threads racing to bind one name to different types",
  "The tests try a few type pairs, one after the other.",
  ["cxxmetrics/metrics_registry.hpp", "cxxmetrics/metric.hpp", "cxxmetrics/gauge.hpp", "cxxmetrics/meter.hpp"],
  [("type name comparison", "metrics_registry::get, metrics_registry::register_existing"), ("compile-time type names", "metric<T>::metric_type")])

p("C04", "Visiting a registry reports every registered metric exactly once",
  "A visit of a registry calls the handler exactly once for every name registered before the visit began, with the right name, and visiting one registered metric reports exactly one snapshot per tag set, each carrying its own tags and its own metric's values. This holds while other threads register metrics or update values: nothing is skipped, repeated, or torn, and a handler that throws leaves the registry usable. A visitor made by deriving gets every snapshot in the case for its kind, and a timer it has no case for as its histogram and its meter.",
  ["schedules", "histories"], "all registration sequences up to a bound followed by visits, and all interleavings of a visit with concurrent registrations and updates",
  "The tests visit small fixed registries that nobody else is modifying.",
  ["cxxmetrics/metrics_registry.hpp", "cxxmetrics/snapshots.hpp"],
  [("repository visit under lock", "basic_default_repository::visit"), ("per-tag visit", "registered_metric::visit_each"), ("snapshot dispatch", "invokable_snapshot_visitor")])

p("C05", "Aggregating a metric combines all of its tag sets",
  "Aggregating a registered metric delivers one combined snapshot: counters and sum gauges add up (as far as the total is representable in the type of the values), average gauges and moving averages average over all tag sets, meters average their mean and each window's rate, and histograms and timers add their counts and pool all retained samples. The result does not depend on the order in which tag sets were registered or are stored, and aggregation changes no metric.",
  ["inputs", "histories"], "all assignments of small values/sample sets to up to 4 tag sets, in every merge order",
  "The tests aggregate two or three fixed values per metric kind.",
  ["cxxmetrics/snapshots.hpp", "cxxmetrics/metrics_registry.hpp", "cxxmetrics/gauge.hpp"],
  [("merge of each snapshot kind", "cumulative/average/meter/histogram/timer snapshot merge"), ("fold over all tag sets", "registered_metric::aggregate_all")])

p("C06", "Publisher data and options attach where they were put, and overrides win",
  "Data a publisher attaches to the registry or to a metric is created once, keeps its identity, and is found again only at the place and under the type it was attached with, also when threads race to create it. The effective publish options of a metric are its own if set, otherwise the registry's, otherwise the defaults, and they carry exactly the settings (scale, mean, count, distribution, quantiles, rates) they were built with, through copying, moving and re-assignment; setting options for an unregistered name has no effect.",
  ["histories", "inputs", "schedules"], "all sequences of set/get operations over two metrics, the registry and unknown names; all combinations of option values through every constructor, move and assignment; racing first accesses",
  "The tests check single option values set once, and never a timer's options after re-assignment.",
  ["cxxmetrics/publisher.hpp", "cxxmetrics/publisher_impl.hpp", "cxxmetrics/metrics_registry.hpp"],
  [("data map keyed by type", "get_or_create_publish_data, get_publish_data"), ("option precedence", "metrics_publisher::effective_options"), ("option value classes", "value/meter/histogram/timer_publish_options")])

p("C07", "A most-recent reservoir holds exactly the latest values",
  "After any sequence of updates, the snapshot of a most-recent-N reservoir contains exactly the last N values recorded (all of them if fewer), each as often as it was recorded. Copy construction and assignment produce an independent reservoir with the same contents that goes on behaving by the same rule.",
  ["histories"], "all operation sequences (update, snapshot, copy, assign) up to a depth covering several wrap-arounds, for capacities 2 to 4",
  "The tests fill a reservoir once and never copy one.",
  ["cxxmetrics/ringbuf.hpp", "cxxmetrics/simple_reservoir.hpp"],
  [("ring buffer indices", "ringbuf::push, ringbuf::iterator"), ("ring buffer copies", "ringbuf copy constructor and operator=")])

p("C08", "A uniform reservoir is exact until full and stays a valid sample afterwards",
  "Until its capacity is reached, a uniform reservoir's snapshot is exactly the multiset of recorded values; from then on, whatever random numbers are drawn, it holds exactly capacity-many values, each of them a recorded one, every update keeps the newest value and replaces exactly one slot, every slot as likely as any other. No update writes outside the reservoir, and copies and assignments are independent and equal in content.",
  ["inputs", "histories"], "all outcomes of every random draw (spread over the whole generator range) for all operation sequences up to a depth, capacities 1 to 4",
  "The tests use one real random sequence and cannot see a write just past the last element.",
  ["cxxmetrics/uniform_reservoir.hpp"],
  [("slot choice", "uniform_reservoir::update"), ("copying", "uniform_reservoir copy constructor and operator=")])

p("C09", "A sliding window reservoir holds exactly the values of the window",
  "A sliding window reservoir's snapshot contains exactly those of the last capacity-many recorded values whose age does not exceed the window when the snapshot is taken, each with its multiplicity, for every pattern of clock advances. Snapshots change nothing, and copies and assignments are independent, with the same window, clock and contents.",
  ["histories", "inputs"], "all sequences of updates, clock advances (including to and just past the window edge), snapshots, copies and assignments up to a depth",
  "The tests use a few fixed timelines and no copies.",
  ["cxxmetrics/sliding_window.hpp", "cxxmetrics/ringbuf.hpp"],
  [("age filter", "transform_and_filter_iterator"), ("timestamping", "sliding_window_reservoir::update")])

p("C10", "Concurrently used reservoirs show only recorded values and lose none at rest",
  "While several threads update a reservoir and others take snapshots, every value in a snapshot is a value some update had at least begun to record: never an unwritten, torn or invented one, and never more values than were recorded or than fit. The same holds for copies made and assignments done from a reservoir while others update it. Once all updates are done and no more than capacity values were recorded, the snapshot contains every one of them exactly once.",
  ["schedules"], "all interleavings of 2-3 threads with 1-2 operations each on each reservoir kind, empty, partly filled, just before and at wrap-around",
  "No test touches a reservoir from two threads.",
  ["cxxmetrics/ringbuf.hpp", "cxxmetrics/uniform_reservoir.hpp", "cxxmetrics/sliding_window.hpp", "cxxmetrics/simple_reservoir.hpp"],
  [("slot reservation and publication", "ringbuf::push, uniform_reservoir::update"), ("snapshot iteration", "ringbuf::iterator, uniform_reservoir::snapshot")])

p("C11", "Histogram counts are exact and never behind their samples",
  "A histogram's total count is the number of values recorded, for any interleaving of recording threads and regardless of how many values the reservoir still retains. A snapshot taken at any moment reports a count at least as large as the number of samples it contains and between the number of updates finished before the snapshot began and the number begun before it ended.",
  ["schedules", "histories"], "all interleavings of 2 recording threads and a snapshotting thread; all sequential histories up to a depth",
  "The tests record from one thread and snapshot at rest.",
  ["cxxmetrics/histogram.hpp", "cxxmetrics/counter.hpp"],
  [("count and reservoir updates", "histogram::update"), ("read order", "histogram::snapshot")])

p("C12", "Snapshot statistics are those of the recorded multiset",
  "For every multiset of numeric or duration samples, a snapshot's size is that of the multiset, and for nonempty ones minimum, maximum and mean are those of the multiset; each quantile is the linear interpolation of the sorted samples at rank q(n+1), clamped to the minimum and maximum (however q is written, as a literal too), hence within them and non-decreasing in q. Merging two snapshots yields the statistics of the combined multiset and the sum of the counts (averages, including those of meters and their rates, weigh every merged snapshot alike in whatever nesting they are merged), and sampling visits non-decreasing values in strictly increasing quantile order, at most as many as requested, consistent with the quantile function.",
  ["inputs"], "all multisets up to size 6 over small and extreme values, for each value type, in every insertion order up to size 4, all quantiles of a grid",
  "The tests use a few sorted lists of small ints.",
  ["cxxmetrics/snapshots.hpp", "cxxmetrics/metric_value.hpp"],
  [("sorting and interpolation", "reservoir_snapshot"), ("merging", "histogram_snapshot::merge"), ("sampling", "reservoir_snapshot::sample")])

p("C13", "Metric values compare, convert and compute like the numbers they hold",
  "Numbers of any held type compare with each other as the mathematical numbers do, durations with each other by their length and texts with each other as texts (total orders with consistent operators, and equal values of one type hash equal), at any magnitude. Sum, difference, product and quotient of numbers follow ordinary arithmetic in the wider operand's type (any floating type is wider than any integer; unsigned integers wrap) in the written operand order, exactly whenever operands and result are representable in it; division by zero yields zero. Durations are added and subtracted in the left one's unit if the right one is a whole number of those, and scaled by whole numbers in their own. A text that is a number, as an operand of a number (a whole one, if it is the left operand of an integer) or as the factor or divisor of a duration, stands for that number; the result has the type of the other operand (cut off towards zero if that counts in integers). Two texts are added by joining them; negating the text of a number negates the number (and inverting that of a whole number inverts its bits), other texts stay as they are. Conversions to numbers, text (floating point numbers with six decimals) and durations (numbers count nanoseconds) and back from numeric text preserve finite values whenever the target can represent them; text that is no number is no time.",
  ["inputs"], "all pairs (triples for transitivity) over every held type and its boundary values",
  "The tests never call these directly beyond small ints.",
  ["cxxmetrics/metric_value.hpp"],
  [("comparison", "integral_variant_data::compare, float_variant_data::compare"), ("type promotion", "variant_data_holder::add/multiply/divide"), ("conversions", "to_integral, to_float, to_nanos, to_string")])

p("C14", "Moving averages follow their defining recurrence for every timeline",
  "A moving average's rate is determined by its marks, its (non-const) queries and the clock alone; an interval runs from the previous tick to the first mark or non-const query at or after its end. The sum of the first interval seeds it, every later completed interval moves it towards that interval's sum by the factor 1-exp(-interval/(2*window)), and each idle interval decays it towards zero by that factor, however long the idle time. It never becomes negative, infinite or not-a-number for finite non-negative marks, marks before the last tick are ignored when the clock runs backwards, and const queries do not influence later results.",
  ["histories", "inputs"], "all sequences of marks, reads, const reads, copies and clock advances (below, at, above the interval, several intervals, beyond one, two and many windows, backwards) up to a depth, for several value types and window/interval pairs",
  "The tests follow a few fixed timelines with a loose tolerance, and never read through const access between intervals.",
  ["cxxmetrics/ewma.hpp"], [("tick", "internal::ewma::tick"), ("read-only access", "ewma::rate() const")])

p("C15", "Concurrent marks of a moving average are not lost or double counted",
  "Marks made by several threads within one interval all enter that interval's sum exactly once, in every interleaving with each other and with readers; at an interval boundary every mark is accounted to the interval ending or to the one starting, and to exactly one of them (a mark first completes an interval that is over and then enters the new one; operations that run at the same time may leave completing it to each other). A concurrent reader never sees a rate outside what some order of the completed and pending operations gives.",
  ["schedules"], "all interleavings of 2-3 threads marking, reading and crossing an interval boundary",
  "No test uses a moving average from two threads.",
  ["cxxmetrics/ewma.hpp"], [("pending accumulation", "ewma::mark, atomic_add"), ("tick hand-over", "ewma::tick")])

p("C16", "Meters report the true lifetime mean and every requested window",
  "A meter's mean is the total of its marks divided by the number of intervals since the first mark (the total itself before any time has passed), and its snapshot has exactly one rate per distinct requested window, equal to the moving average of that window over the same marks. Window lists act as sets: order and duplicates do not matter; concurrent marks are all counted in the mean and in every window.",
  ["histories", "schedules", "programs"], "all mark/advance/read/copy sequences up to a depth for several window lists; all window lists up to length 4 over a 4-element alphabet; all interleavings of 2-3 marking threads including the very first marks",
  "The tests use one or two window lists on one timeline and one thread.",
  ["cxxmetrics/meter.hpp", "cxxmetrics/meta.hpp", "cxxmetrics/ewma.hpp"],
  [("mean", "_meter_impl::mean"), ("fan-out of marks to windows", "rates_holder::mark"), ("window set", "templates::sort_unique")])

p("C17", "Timers log each timed scope once, with its true duration",
  "A scoped timer logs exactly once on scope exit the time between its construction or last reset and the exit, unless it was cleared or moved from; timing a call logs its duration once, passes through its result or exception, and logs nothing when it throws unless asked to include exceptions; a cleared timer that is reset logs again. Times are kept exactly, in nanoseconds, whatever the clock's tick. Every logged duration (zero ones are not logged) reaches the reservoir the timer was given and increases the count, the histogram and the rate by exactly one, including when several threads use the timer.",
  ["histories", "schedules", "fault_sequences"], "all sequences of scope entry, clear, reset, move, clock advance, throw and exit up to a depth; all interleavings of two timing threads",
  "The tests time one or two calls.",
  ["cxxmetrics/timer.hpp", "cxxmetrics/histogram.hpp", "cxxmetrics/meter.hpp"],
  [("scope guard", "scoped_timer_t"), ("call timing", "timer::time"), ("recording", "timer::update")])

p("C18", "Prometheus output is well-formed and faithful for every registry",
  "For every registry content (nonempty names, tag keys and tag values with arbitrary characters, all metric kinds, finite values) the written text is syntactically valid in the Prometheus exposition format, has one type line per metric before its samples and no duplicate series, and reading it back yields for every metric and tag set the values of the metric's snapshot (decimal text with six decimals; times of timers in whole microseconds) and the original tag values. A name is its path elements joined by ':' with every character that is not alphanumeric replaced by '_' (a leading digit is preceded by '_'), and tag keys likewise; as long as names and keys stay distinct after that and the added suffixes, and no tag uses the reserved labels window and quantile, metrics are neither omitted nor merged.",
  ["inputs", "configurations"], "all names, tag keys and tag values up to length 3 over an alphabet of critical characters, all metric kinds, all window lists of a set, several metrics and tag sets at once",
  "The tests compare a few fixed outputs with plain names and no special characters beyond a quote.",
  ["cxxmetrics_prometheus/snapshot_writer.hpp", "cxxmetrics_prometheus/prometheus_publisher.hpp", "cxxmetrics_prometheus/prometheus_counter.hpp", "cxxmetrics_prometheus/prometheus_gauge.hpp", "cxxmetrics_prometheus/prometheus_meter.hpp", "cxxmetrics_prometheus/prometheus_histogram.hpp", "cxxmetrics_prometheus/prometheus_timer.hpp"],
  [("escaping", "format_name_element, format_tag_value"), ("window labels", "format_window"), ("one writer per snapshot kind", "snapshot_writer specialisations")])

p("C19", "Prometheus output honours the effective publish options",
  "For every combination of publish options, set for the registry or for a single metric, the written output contains exactly the requested parts: count line only if counts are included, mean rate only if means are included, rates of timers only if rates are included, exactly the requested quantiles (the default ones otherwise) and every sample value (counts included) multiplied by that kind's scale factor if one is set. Options of one metric or kind never affect another.",
  ["configurations"], "all combinations of option values for every metric kind at both levels, with overrides on one of two metrics",
  "The tests check a few single options.",
  ["cxxmetrics_prometheus/prometheus_publisher.hpp", "cxxmetrics_prometheus/prometheus_histogram.hpp", "cxxmetrics_prometheus/prometheus_timer.hpp", "cxxmetrics_prometheus/prometheus_meter.hpp", "cxxmetrics/publisher.hpp"],
  [("option use", "snapshot_writer::write"), ("option resolution", "metrics_publisher::effective_options")])

p("C20", "The lock-free stack is linearizable and conserves its elements",
  "Under every interleaving of pushes and pops the lock-free stack behaves like an ordinary stack whose operations take effect one at a time between call and return: no element is lost, duplicated or invented, a pop reports empty only if the stack was empty at some moment of the call, and node reuse never corrupts the list. Emptying or destroying the stack releases every element exactly once.",
  ["schedules"], "all interleavings of 2-3 threads with 1-3 push/pop operations (up to a context-switch bound for the larger ones), with immediate node reuse, on stacks of size 0 to 3",
  "The stack has no test that is built, let alone a concurrent one.",
  ["cxxmetrics/internal/atomic_lifo.hpp"], [("tagged head compare-and-swap", "atomic_lifo::push, pop")])

p("C21", "Metric operations are free of data races",
  "Any two operations that user threads and publishers may run at the same time on the same metric or registry (recording, setting, reading, copying from, taking snapshots, looking up, registering, visiting, aggregating, attaching publisher data, reading publish options, writing Prometheus output; value gauges and reservoirs of arithmetic or duration types up to 8 bytes) are free of data races in the sense of the C++ memory model: all conflicting accesses are atomic or ordered by synchronisation. What a metric that is obtained from a registry or visited holds is ordered after its construction. Metric values and snapshots share no hidden state: threads may convert, compare and calculate with the same constant value or with values of their own.",
  ["schedules"], "all interleavings of every conflicting pair of public operations on each metric kind and on the registry, judged by happens-before under the declared memory orders",
  "Tests are single-threaded, and even a racy run usually gives the right answer.",
  ["cxxmetrics/counter.hpp", "cxxmetrics/ewma.hpp", "cxxmetrics/meter.hpp", "cxxmetrics/ringbuf.hpp", "cxxmetrics/uniform_reservoir.hpp", "cxxmetrics/metrics_registry.hpp", "cxxmetrics_prometheus/prometheus_publisher.hpp"],
  [("atomics with declared orders", "all metrics"), ("locks", "basic_default_repository, registered_metric, basic_registered_metric")])

p("C22", "No schedule deadlocks, livelocks or starves a metric operation",
  "Every combination of concurrent registry lookups, registrations, visits, aggregations, option changes and publications terminates in every schedule, including visits, aggregations, publisher data and option look-ups of metrics made from inside visit handlers, and uses of a metric from inside the handlers of its aggregation, as the documentation allows, and locks are released when a handler, a type mismatch or the construction of publisher data throws. Recording into a metric (counters, value gauges up to 8 bytes, moving averages, meters, reservoirs, histograms, timers) needs no lock: it finishes in a bounded number of its own steps even if every other thread is stopped at an arbitrary point.",
  ["schedules", "fault_sequences"], "all interleavings of 2-3 threads of nested registry/publisher operations; for each recording operation, every point at which the other threads can be suspended forever",
  "Single-threaded tests cannot deadlock on lock order or depend on a suspended thread.",
  ["cxxmetrics/metrics_registry.hpp", "cxxmetrics/publisher_impl.hpp", "cxxmetrics/ringbuf.hpp", "cxxmetrics/ewma.hpp", "cxxmetrics/uniform_reservoir.hpp"],
  [("lock nesting", "visit -> visit_each -> snapshot"), ("retry loops", "compare-exchange loops in ringbuf, ewma")])

p("C23", "Gauges report exactly what they are bound to",
  "A value gauge reports the last value set, a reference or pointer gauge the current value of its referent at the time of reading, and a function gauge the result of one call of its function per read; snapshots use the same value. The chosen aggregation (sum or average) decides how the gauge's tag sets combine for every kind of gauge, and copies and moves keep value, binding and aggregation. Value gauges of arithmetic or duration types up to 8 bytes may be set and read by several threads and behave like an atomic register.",
  ["histories", "configurations"], "all sequences of set, read, snapshot, copy, move, assign and referent changes up to a depth for every gauge kind and both aggregations",
  "The tests read each gauge kind once and aggregate only value gauges.",
  ["cxxmetrics/gauge.hpp", "cxxmetrics/snapshots.hpp"],
  [("gauge kinds", "primitive_gauge, functional_gauge, referential_gauge"), ("snapshot type by aggregation", "gauges::gauge::snapshot_type")])

p("C24", "Copies of metrics are equal in state and independent afterwards",
  "Copy-constructing or assigning a counter, gauge, moving average, meter, histogram, timer, or reservoir yields an object that answers every later sequence of operations exactly as the original would have done at that moment (for uniform reservoirs: up to the slot a random draw selects), and operations on one never affect the other; assignment over an object with arbitrary previous history leaves no trace of that history.",
  ["histories"], "all operation sequences up to a depth on source and target before the copy, and on both after it, compared with an uncopied twin",
  "The tests copy few metrics and never into an object that was used before.",
  ["cxxmetrics/counter.hpp", "cxxmetrics/ewma.hpp", "cxxmetrics/meter.hpp", "cxxmetrics/ringbuf.hpp", "cxxmetrics/uniform_reservoir.hpp", "cxxmetrics/sliding_window.hpp"],
  [("copy operations", "copy constructors and assignment operators of each metric")])

p("C25", "The object pool hands out each object once and keeps it while referenced",
  "An object obtained from the pool stays alive and unshared with any other allocation until its last handle is dropped or overwritten, and is destroyed exactly once then; its storage is reused for later allocations and released with the pool. This holds for all combinations of copying, moving, assigning, exchanging and comparing-and-exchanging handles in one thread, and when several threads allocate from the pool, copy and drop handles of their own to shared objects, or assign to, exchange and compare-exchange the same handle. Handles must not outlive the pool; copying or reading a handle while another thread changes it, and which object a failed concurrent compare-exchange reports, are not covered.",
  ["schedules", "histories"], "all sequences of allocate/copy/move/assign/exchange/drop over three handles up to a depth, and all interleavings of 2 threads allocating, sharing and dropping objects",
  "The pool's test is not part of the build and is single-threaded.",
  ["cxxmetrics/pool.hpp", "cxxmetrics/internal/atomic_lifo.hpp"],
  [("free list", "pool, internal pool nodes"), ("ownership handle", "pool_ptr")])

p("C26", "The ordered set structure behaves as a sorted set",
  "For every sequence of insertions, lookups and erasures, and whatever node heights are drawn, the skip list contains exactly the values inserted and not erased, without duplicates, iterates them in ascending order, and finds exactly what it contains; iterators are values, a copy stands where its original stood and moves on its own. When several threads insert, erase and look up at once, the operations on every value take effect one at a time between call and return, and once they are done the list is in that state. Releasing the memory of erased nodes is not covered.",
  ["histories", "inputs", "schedules"], "all operation sequences up to a depth over a small key set, and 2-3 threads with 1-2 operations each in all interleavings up to a number of preemptions, with all outcomes of the height choice",
  "The skip list's tests are not part of the build, and use random heights.",
  ["cxxmetrics/skiplist.hpp"], [("multi-level search and linking", "skiplist::insert, find, erase")])

p("C27", "Metric paths and tag sets form consistent keys",
  "Concatenating metric paths is associative with the empty path as identity, two paths are equal exactly if their element sequences are, joining lists the elements in order with the delimiter between them, and equal paths and equal tag sets always hash equally. Tag sets are equal exactly if they hold the same keys with equal values (of the same type), in whatever order and by whatever means they were built.",
  ["inputs"], "all paths up to 4 elements over a small alphabet built in every way and grouping; all tag sets up to 3 tags in all insertion orders",
  "The tests never vary how equal keys are built.",
  ["cxxmetrics/metric_path.hpp", "cxxmetrics/tag_collection.hpp"],
  [("concatenation", "metric_path operator/"), ("hashing", "std::hash<metric_path>, std::hash<tag_collection>")])

p("C28", "A period is the length of time it names",
  "A period, written as a literal, made by the functions for microseconds, milliseconds, seconds, minutes and hours, or rebuilt from its value, lasts exactly that long: converting it to a duration and to its number of microseconds agree, at run time and in constant expressions. Scaling a period by a number, and adding or taking off microseconds, gives the period of that length; comparing a duration of any unit with a period, adding, subtracting or dividing by it, and moving a duration by a period give what the equally long std::chrono duration gives.",
  ["inputs"], "all five units, both spellings, boundary amounts; all operators between periods and durations of six units over boundary values",
  "The tests use two or three fixed windows.",
  ["cxxmetrics/time.hpp"],
  [("period", "period::to_duration, period operators"), ("functions and literals", "time::*, cxxmetrics_literals"), ("mixed operators", "operators on std::chrono::duration and period")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError:
    pass
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
