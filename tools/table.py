# The properties, in one table. tools/gen.py writes properties.jsonl, MANIFEST.json and the
# per-property part of DESIGN.md from it.
P = []


def prop(id, title, statement, over, q, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files.split(), mech=mech, note=note))


S = "src/spine/structure/"
UNITS = " ".join(S + "units/" + f for f in "primitives/compound_unit.hpp primitives/magnitudes.hpp primitives/raw_types.hpp primitives/unit.hpp".split()) + " " + S + "units/time.hpp " + S + "units/si.hpp"
prop("S01", "A fixed array keeps its elements and gives its storage back exactly once",
     "An array of fixed size reports that size, and indexing, front/back, raw data access and forward or backward iteration (const or not, with prefix or postfix stepping) all show the element last written at each position. Moving, swapping and assigning arrays transfers or shares the contents as documented. Every element and every byte of storage an array owns is released exactly once, and storage it was given is never released.",
     "inputs histories", "for every size, every element value and every sequence of building, writing, copying, moving, swapping and assigning arrays",
     "The tests read a handful of literal arrays; aliasing, ownership and iterator edge cases only show in particular combinations of operations and under memory checking.",
     S + "array.hpp", [("store ownership", S + "array.hpp: m_store_is_internal, ~Array, operator="), ("iterators", S + "array.hpp: ArrayIterator, ArrayReverseIterator")])
prop("S02", "A vector is a bounded sequence with access at both ends",
     "A vector of fixed capacity behaves as a sequence: appending, prepending, inserting, removing, popping at either end, clearing and filling have their usual effect on the elements and their order, and size, emptiness, fullness, indexing, front/back and iteration in both directions always reflect that sequence. Adding to a full vector changes nothing. Elements that own resources are neither lost, duplicated nor released twice, whatever the order of operations.",
     "inputs histories", "for every capacity, every placement of the elements in the storage, every element value and every sequence of operations",
     "The tests run fixed sequences over a few literal values; the elements' placement inside the storage depends on the history of pops and pushes, and few placements are visited.",
     S + "vector.hpp " + S + "array.hpp", [("sliding window in the store", S + "vector.hpp: m_head, m_tail, rearrange"), ("insertion and removal by moving memory", S + "vector.hpp: insert, remove, push_front")])
prop("S03", "A ring buffer is a bounded first-in first-out queue that counts what it loses",
     "A ring buffer yields the elements still held in the order they were pushed, whether taken one at a time, in bulk or peeked at. Used and free space always add up to the capacity; without rollover a push into a full buffer is refused, and with rollover it overwrites the oldest elements and counts exactly those overwritten unread. Bulk transfers and drops report exactly how many elements they moved.",
     "inputs histories", "for every capacity, every position of the contents around the end of the storage, every element value and every sequence of operations, with and without rollover",
     "The tests exercise one or two capacities and offsets; wrap-around, overrun counting and bulk transfers interact at every offset.",
     S + "ringbuffer.hpp", [("wrap-around indices", S + "ringbuffer.hpp: m_head, m_tail"), ("overrun counter", S + "ringbuffer.hpp: overrun")])
prop("S04", "A line buffer hands out exactly the lines that arrived, byte for byte",
     "A line buffer reports a line exactly when a delimiter has arrived, and taking, viewing or dropping the next line concerns exactly the bytes up to the first delimiter, in arrival order. A line that does not fit the receiver is not taken and nothing is written past the given length. The bytes that follow stay in place.",
     "inputs histories", "for every content and placement of delimiters, every offset of the line around the end of the storage and every receiver size",
     "The tests push a few short texts; lines that wrap around the end of the storage, empty lines and receivers of exactly the line's length are particular combinations of offset and content.",
     S + "linebuffer.hpp " + S + "linebuffer.cpp " + S + "ringbuffer.hpp", [("delimiter search", S + "linebuffer.cpp: length_of_next_line"), ("line extraction", S + "linebuffer.cpp: get_next_line, get_next_line_view, drop_next_line")])
prop("S05", "An object pool never hands out an object twice and never loses one",
     "Acquiring from a pool succeeds exactly when an object is free, and an object in use is not handed out again until its user lets go of it, upon which it becomes free again. The number of objects a pool owns does not change by use. Objects still in use survive the pool, and destroying a pool and its users gives all memory back.",
     "inputs histories", "for every pool size and every interleaving of acquiring and releasing objects",
     "The tests acquire and release in one or two fixed orders; sharing or losing an object depends on the order in which users let go.",
     S + "pool.hpp", [("search for a free object", S + "pool.hpp: acquire"), ("population", S + "pool.hpp: populate, depopulate")])
prop("S06", "A result holds exactly one outcome and its combinators act on that outcome alone",
     "A result is a success, a failure, an intermediary or holds nothing, and reports exactly that, whatever the types of its values (also when they are the same type). Accessors yield the stored value and the fallbacks apply exactly in the other states. Mapping, chaining, and_then, or_else, match and the like call their function exactly in the state they are for, with the stored value, and pass every other state through unchanged.",
     "inputs programs", "for every state, every value, equal and different value types, and every chain of combinators",
     "The tests check literal values for some pairs of types; which alternative is active when types coincide and what a chain does in each state are not sampled.",
     S + "result.hpp", [("tagged alternatives", S + "result.hpp: Result"), ("combinators", S + "result.hpp: chain, map, and_then, or_else, match")])
prop("S07", "String utilities stay within their text",
     "Stripping, matching, searching and converting text to numbers depend on exactly the characters of the given view, for any bytes in it, and never read or write outside it. Stripping removes exactly the leading or trailing delimiter characters. A string of static capacity never reallocates, stays within its capacity, keeps its contents when resized and stays terminated.",
     "inputs", "for every text, needle and delimiter set, including empty ones, non-ASCII bytes and views into larger buffers",
     "The tests use ordinary words that are terminated right after the view; reads past the end of a view and texts consisting of delimiters only do not show up there.",
     "src/spine/core/utils/string.hpp src/spine/core/utils/string.cpp " + S + "static_string.hpp " + S + "static_string.cpp", [("view utilities", "src/spine/core/utils/string.cpp"), ("StaticString", S + "static_string.cpp")])
prop("U01", "Units of time convert, compare and calculate exactly, rounding once",
     "Converting a whole number duration to a finer magnitude is lossless and to a coarser one rounds to the nearest whole number (or in the way asked for). Comparing two durations of any magnitudes orders them by their true length. Adding, subtracting, negating and scaling durations of any magnitudes yields the true result, rounded once to the magnitude of the result.",
     "inputs", "for every pair of magnitudes from microseconds to days and every value within the stated range",
     "The tests check a few literal conversions; rounding, loss of precision for large values and mixed magnitudes show up at particular values only.",
     UNITS, [("conversion between magnitudes", S + "units/primitives/: Unit conversion constructors"), ("comparison of mixed magnitudes", S + "units/: comparison operators")])
prop("T01", "Timers and alarms fire at their moment, never early and never forgotten",
     "An alarm has expired from its moment on and not before, and its moment and the time left always agree. An interval timer expires once more than its interval has passed since the last expiry, and the moments it aims for keep the cadence when it catches up or restart from now when it does not. A stopwatch timer tells the time since it was last reset, and resets exactly when asked to.",
     "schedules inputs histories", "for every boot time, interval and sequence of moments at which the timer is looked at",
     "The tests step a clock by a few literal amounts; off-by-one moments, late readings and catching up depend on the exact moments of reading.",
     S + "time/timers.hpp " + S + "time/timers.cpp", [("IntervalTimer", S + "time/timers.cpp"), ("AlarmTimer", S + "time/timers.cpp")])
prop("T02", "A daily schedule yields the value of the block that holds the moment",
     "For every second of the day the value of a schedule is that of the block holding that moment, including a block that runs past midnight, and zero between blocks. The start of the next block is the soonest start later that day, or the end of the day if there is none. Neither depends on the order in which the blocks are listed.",
     "inputs configurations", "for every set of blocks that do not overlap, in any order, and every second of the day",
     "The tests sample a few moments of a few schedules; block borders, midnight and unordered blocks need particular combinations.",
     S + "time/schedule.hpp " + S + "time/schedule.cpp", [("block lookup", S + "time/schedule.cpp: value_at"), ("next block", S + "time/schedule.cpp: start_of_next_block")])
prop("T03", "Dates and times convert between Unix time, calendar and text without loss",
     "A date made from a Unix time shows the calendar date, time of day, day of the week and day of the year of that moment, and gives that Unix time back. A date made from compiler date and time texts or from numbers shows exactly those fields, including leap days, centuries and moments before the year 2000. Formatting a date into a buffer yields the whole text and its length or, if it does not fit, 0, and writes nothing beyond the buffer.",
     "inputs", "for every second of the years stated, and every valid date and time text",
     "The tests convert a handful of moments; leap years, century rules and particular digits (such as 08 and 09) need particular dates.",
     S + "time/datetime.hpp " + S + "time/datetime.cpp", [("construction", S + "time/datetime.cpp: DateTime::DateTime"), ("accessors", S + "time/datetime.cpp"), ("formatting", S + "time/datetime.cpp: DateTime::strf_DateTime")])
prop("T04", "Durations are read from and written to text faithfully",
     "A text is read as a duration exactly when it is a number followed by a known unit, and then as the number and unit written; anything else, including a number that does not fit, is refused without failing. Printing a duration shows it in the largest unit of which there is at least one (once the number is big enough), rounded to that unit. What was printed can be read back.",
     "inputs", "for every text within the stated length and every duration within the stated range",
     "The tests parse and print a few literals; malformed texts, overflow and rounding borders are not sampled.",
     "src/spine/core/utils/time_repr.hpp src/spine/core/utils/time_repr.cpp", [("parse_time", "src/spine/core/utils/time_repr.cpp"), ("repr", "src/spine/core/utils/time_repr.cpp")])
prop("E01", "Pending futures fire once, in order of their moments, never early",
     "A pipeline of futures holds exactly those pushed and not yet taken, and hands them out in order of their moments, those with the same moment in the order they were pushed, each exactly once and never before its moment. It always tells whether one is due and how long it takes until the next one is, and shown as a text lists the time left until each, the soonest first. A future that has fired can be armed and pushed again, and a pipeline releases what it holds.",
     "schedules histories inputs", "for every sequence of pushes, clock steps and takes, and every delay, including negative and equal ones",
     "The tests push a few futures with literal delays; ordering depends on all relative delays and on pushes between clock steps.",
     "src/spine/eventsystem/pipeline.hpp src/spine/eventsystem/pipeline.cpp", [("ordered insertion", "src/spine/eventsystem/pipeline.cpp: Pipeline::push"), ("taking what is due", "src/spine/eventsystem/pipeline.cpp: Pipeline::expire")])
prop("E02", "Every scheduled event reaches each of its handlers once, when due, with its data",
     "Triggering an event calls each handler attached to that kind of event once, in the order attached, with the event's data; scheduling one does so in the first loop at or after its moment, events in order of their moments. When all events of the store are in use nothing fires and nothing breaks, and events that have fired become free again. Handlers may schedule or trigger further events while handling, and nothing is leaked.",
     "schedules histories inputs", "for every sequence of scheduling, triggering and looping at any moments, every event kind and data, and stores of every stated size",
     "The tests schedule a few events with literal delays; exhaustion of the store, equal moments and scheduling from within handlers depend on the history.",
     "src/spine/eventsystem/eventsystem.hpp src/spine/eventsystem/eventsystem.cpp", [("dispatch", "src/spine/eventsystem/eventsystem.cpp: EventSystem::loop, trigger"), ("event store", "src/spine/eventsystem/eventsystem.cpp: EventSystem::event, " + S + "pool.hpp")])
prop("E03", "The event loop sleeps until the next event, within its configured bounds",
     "When delays between loops are enabled the event loop sleeps until the next event is due but never longer than the configured maximum and never past that event; with nothing scheduled it sleeps the configured minimum. Consecutive sleeping loops never make an event late. Without delays the loop does not sleep at all.",
     "schedules inputs configurations", "for every set of scheduled delays and every configured minimum and maximum",
     "The tests run the loop with the default limits; the sleep depends on the units and relation of limits and delays.",
     "src/spine/eventsystem/eventsystem.hpp src/spine/eventsystem/eventsystem.cpp", [("sleep between loops", "src/spine/eventsystem/eventsystem.cpp: EventSystem::loop")])
prop("P01", "The simulated clock counts every delay, in one consistent time",
     "After any sequence of delays, in milliseconds or microseconds, the clock used on the host has advanced by exactly their sum. Its milliseconds are the whole milliseconds of its microseconds. It never runs backwards.",
     "histories inputs", "for every starting time and sequence of delays",
     "Tests delay by a few round numbers; sub-millisecond delays and mixed units show a clock that keeps two times.",
     "src/spine/platform/implementations/mock.cpp src/spine/platform/implementations/mock.hpp src/spine/platform/hal.hpp", [("mock clock", "src/spine/platform/implementations/mock.cpp: Mock::delay, millis, micros")])
IO = "src/spine/io/stream/"
prop("I01", "Buffered input delivers the stream's bytes in order, never losing a whole line",
     "Bytes pulled in from a stream come out of the line buffer in the order they arrived, each once. A complete line that has been received is never overwritten or altered by pulling in more: pulling stops when the buffer is full and holds a complete line, and only a line longer than the buffer loses bytes, its oldest ones. A read that fails loses nothing, and taking, viewing and dropping a line concern exactly the first line.",
     "inputs histories schedules", "for every byte content, arrival pattern, position of delimiters and failing read, and every buffer size and offset stated",
     "The tests feed a few literal lines; which bytes are lost depends on where delimiters fall relative to the buffer's end when data arrives in bursts.",
     IO + "buffered_stream.hpp " + IO + "buffered_stream.cpp " + IO + "implementations/mock.cpp " + IO + "stream.hpp", [("pulling in", IO + "buffered_stream.cpp: BufferedStream::pull_in_data"), ("taking lines", IO + "buffered_stream.cpp: get_next_line, drop_next_line, get_next_line_view")])
prop("I02", "Buffered output reaches the stream in order, each byte once",
     "Bytes written to a buffered stream reach the underlying stream in the order written, each exactly once, as far as the stream has room. A byte the stream fails to accept stays queued and goes out first next time. The reported space used and left is exact, as much of a write is queued as fits, which is reported, or, with rollover, it replaces only the oldest queued bytes.",
     "inputs histories faults", "for every byte content, sequence of writes and flushes, amount of room and failing write, and every buffer size and offset stated",
     "The tests flush into a stream that always accepts everything; partial and failed writes are the rule on a real port.",
     IO + "buffered_stream.hpp " + IO + "buffered_stream.cpp", [("pushing out", IO + "buffered_stream.cpp: BufferedStream::push_out_data"), ("queueing", IO + "buffered_stream.cpp: BufferedStream::buffered_write")])
prop("I03", "A transaction takes one line and its whole reply, or leaves nothing",
     "A transaction shows the line that started it unchanged for as long as it is open, also while more input is pulled in. Committing it (or letting it go unfinished) keeps exactly the reply written within it, aborting removes exactly that reply and leaves what was queued before. Either way exactly one line is taken from the input, once, also when the transaction was moved.",
     "inputs histories", "for every input and reply content, sequence of replies, pulls and moves, and every way of ending the transaction",
     "The tests commit and abort a few literal lines; wrapped buffers, moved transactions and input arriving meanwhile are not sampled.",
     IO + "transaction.hpp " + IO + "transaction.cpp " + IO + "buffered_stream.cpp", [("ending", IO + "transaction.cpp: Transaction::commit, abort, finalize"), ("moving", IO + "transaction.cpp: Transaction move constructor")])
CT = "src/spine/controller/"
prop("C01", "A latch switches on its limits and keeps its minimal and maximal times",
     "A set/reset latch turns on at a reading above its high limit and off at one below its low limit, and keeps its state in between. It stays on or off for at least the minimal on and off times whatever the readings, and changes at the first reading after the maximal ones where those are set, all counted from its last change. It starts off, free to turn on.",
     "inputs histories schedules configurations", "for every limit, reading and configured time, and every moment at which a reading arrives",
     "The tests run a few literal readings at round intervals; how long a state was held depends on when readings arrive relative to the last change.",
     CT + "sr_latch.hpp " + CT + "sr_latch.cpp", [("latch", CT + "sr_latch.cpp: SRLatch::new_reading"), ("response", CT + "sr_latch.hpp: SRLatch::response")])
PID = " ".join(CT + f for f in ["pid.hpp", "pid.cpp", "implementations/pid/pid_controller.cpp", "implementations/pid/pid_controller.hpp"])
prop("C02", "A PID's response stays within its limits and changes once per sample interval",
     "Whatever readings, setpoint and gains, the response of a PID controller is a number within its configured output limits. A reading only changes the response when a whole sample interval has passed since the last one that did. Readings in between change nothing.",
     "inputs histories schedules", "for every finite reading, setpoint and moment of reading within the stated range, every kind of proportionality and direction",
     "The tests drive one controller along one simulated process; saturation and wind-up depend on the magnitude and order of readings.",
     PID, [("limiting", CT + "implementations/pid/pid_controller.cpp"), ("sampling", CT + "pid.cpp: PID::new_reading")])
prop("C03", "A PID's response is the stated combination of its terms, and gains stay as set",
     "The response is the limited sum of the proportional term (on the error or on the measurement, as configured), the limited integral of the error over time and the derivative of the measurement, in the configured direction. The gains are per second, whatever the sample interval, and are reported as they were set. Changing them keeps what was integrated so far.",
     "inputs histories configurations", "for every reading and setpoint within the stated range, each direction, proportionality, interval and set of gains stated",
     "The tests check the end of a simulated run; a wrong sign, scale or wind-up of a single term shows at particular readings or configurations only.",
     PID, [("computation", CT + "implementations/pid/pid_controller.cpp: compute"), ("gains", CT + "implementations/pid/pid_controller.cpp: set_tunings, set_sampling_interval")])
prop("C04", "Autotuning drives the relay, counts its cycles and derives the gains",
     "While tuning the output is at its upper limit until the process exceeds the setpoint by the hysteresis and at its lower limit until it falls below it by the hysteresis, for exactly the requested number of cycles. The gains follow from the measured amplitude and period by the Ziegler-Nichols rule of the chosen aggressiveness, averaged over all cycles after the first two. Autotuning drives the process with exactly what the relay says, for every reading, and returns those gains.",
     "inputs histories schedules", "for every setpoint, hysteresis, reading and length of half period within the stated ranges",
     "The tests tune against one simulated process; the number of cycles averaged, the order of crossings and their timing vary with the process.",
     CT + "implementations/pid/pid_tuner.cpp " + CT + "implementations/pid/pid_tuner.hpp " + CT + "pid.cpp", [("relay", CT + "implementations/pid/pid_tuner.cpp"), ("tuning run", CT + "pid.cpp: PID::autotune")])
FI = "src/spine/filter/implementations/"
prop("F01", "The moving average weighs samples as configured and stays within their range",
     "The exponential moving average takes its first sample as it is, then counts each sample for one in as many as were taken, up to the frame. It always lies between the smallest and largest sample and the value it was reset to, and a constant input stays exactly as it is.",
     "inputs histories configurations", "for every sequence of samples and resets within the stated range and each stated frame, in single and double precision",
     "The tests feed a few literal samples to one frame; weights while the frame fills and rounding of constants depend on the values and the history.",
     FI + "ewma.hpp src/spine/filter/filter.hpp", [("average", FI + "ewma.hpp: EWMA::new_sample")])
prop("F02", "A band-pass takes exactly the samples in its band, and yields at its limit",
     "A band-pass filter takes a sample within mantissa*10^(decades+1) of its midpoint - the offset, plus the last taken value if relative - and keeps its value on any other. After more consecutive rejections than its limit it takes the sample nevertheless, throwing if asked to, and starts counting anew. The first sample of a relative filter is always taken.",
     "inputs histories configurations", "for every sequence of samples and resets within the stated range, for each stated band and rejection limit",
     "The tests feed a few literal samples to one configuration; the midpoint moves with every sample and the count of rejections depends on their order.",
     FI + "bandpass.hpp src/spine/filter/filter.hpp", [("limits", FI + "bandpass.hpp: BandPass::update_limits"), ("rejection", FI + "bandpass.hpp: BandPass::new_sample")])
prop("F03", "Mapping and inverting filters are linear, ordered and stay within their range",
     "A mapping filter takes its input range linearly to its output range, keeps the order of samples and holds samples beyond the range at its ends, throwing exactly then and only if asked to. An inverting filter mirrors samples within its range, so that inverting twice gives the sample back. Passing through changes nothing, whatever the sample.",
     "inputs configurations", "for every pair of samples within the stated range and each stated mapping, in single and double precision",
     "The tests map a few literal values; the ends of ranges, rounding and falling output ranges are not sampled.",
     FI + "mapped_range.hpp " + FI + "invert.hpp " + FI + "passthrough.hpp", [("mapping", FI + "mapped_range.hpp"), ("inverting", FI + "invert.hpp"), ("passing through", FI + "passthrough.hpp")])
prop("F04", "A filter stack passes each sample through all its filters, in order",
     "A sample given to a stack of filters passes through each of them once, in the order attached, and the stack's value is that of its last filter. Detaching hands out the filter of that slot and keeps the others in order, a reset reaches every filter, and every filter is destroyed once. It reports the slots asked for and those occupied.",
     "inputs histories configurations", "for every stack of up to the stated number of filters of every kind, and every sample within the stated range",
     "The tests pass a few samples through one stack; which filter's output is seen depends on the kinds, their order and what was detached.",
     "src/spine/filter/filterstack.hpp src/spine/filter/filter.hpp", [("passing on", "src/spine/filter/filterstack.hpp: Stack::value"), ("attaching and detaching", "src/spine/filter/filterstack.hpp: Stack::attach_filter, detach_filter")])
prop("P02", "Outputs show the state asked for; fades end on their setpoint in bounded steps",
     "Every change of a digital output is written to its pin and reported as asked for. An analogue output fades from its value to the setpoint in one direction, in steps no larger than the increment and an interval apart, without overshoot and without leaving 0 to 1. It ends exactly on the setpoint, in no more steps than needed.",
     "inputs histories schedules", "for every value, setpoint and interval within the stated range and each stated increment, and every sequence of operations on a digital output",
     "The repository has no test of fades; where steps end depends on how value, setpoint and increment relate.",
     "src/spine/platform/gpio.cpp src/spine/platform/gpio.hpp", [("fading", "src/spine/platform/gpio.cpp: fade_to"), ("digital state", "src/spine/platform/gpio.hpp: DigitalOutput")])
prop("P03", "What is printed or sent on the host platform comes out byte for byte",
     "Printing a text on the host platform puts out exactly that text, and a newline after a line; formatted text that is too long for its buffer is cut off and never written beyond it. The simulated serial port reads, writes and counts exactly what the stream behind it does, in order, and reports how many bytes were moved. An analogue output reports the value set last, however it was set.",
     "inputs histories", "for every text, transfer and value within the stated sizes",
     "The repository has no test of printing or of the serial port; what is cut off and what is reported depend on lengths and on where the stream fails.",
     "src/spine/platform/platform.hpp src/spine/platform/hal.hpp src/spine/platform/implementations/mock.hpp src/spine/platform/gpio.hpp src/spine/platform/protocols/uart.hpp", [("printing", "src/spine/platform/platform.hpp: Platform::print, println, printf"), ("serial port", "src/spine/platform/implementations/mock.hpp: MockUART"), ("analogue value", "src/spine/platform/gpio.hpp: AnalogueOutput::value")])
prop("P04", "On Arduino, pins, interrupts, serial port and clock do what they are told",
     "Digital pins take the level asked for, inverted for active on low, and analogue outputs a duty in proportion to the value, off at 0 and at the largest duty of their resolution at 1. An interrupt's callback is attached to its own interrupt, on the edges asked for, until it is detached, and no other is touched. The serial port reads and writes bytes in order and reports exactly how many, the monitor shows text as it is, and delays and clock pass through unchanged.",
     "inputs histories", "for every pin, polarity, resolution, value, transfer and sequence of operations within the stated bounds",
     "The code for Arduino is not compiled by the tests at all; here it runs against a stand-in for the board that records what is written to it.",
     "src/spine/platform/implementations/arduino.hpp src/spine/platform/implementations/arduino_without_sugar.hpp src/spine/platform/gpio.hpp src/spine/platform/platform.hpp src/spine/platform/hal.hpp", [("pins", "src/spine/platform/implementations/arduino.hpp: ArduinoDigitalOutput, ArduinoDigitalInput, ArduinoAnalogueOutput, ArduinoAnalogueInput"), ("interrupts", "src/spine/platform/implementations/arduino.hpp: ArduinoInterrupt"), ("serial port", "src/spine/platform/implementations/arduino.hpp: ArduinoUART")])
prop("P05", "On Zephyr, delays last as long as asked for and the log level reaches the kernel",
     "A delay lasts at least as long as asked for and less than a millisecond longer, and the clock shows the kernel's uptime. A message is passed to the kernel's log at its own level, with its text unchanged, exactly if that level is on. Setting the log level sets the kernel's filter to the same level, including off.",
     "inputs histories", "for every uptime, delay, level and text within the stated bounds",
     "The code for Zephyr is not compiled by the tests at all; here it runs against a stand-in for the kernel that records what it is asked.",
     "src/spine/platform/implementations/zephyr.hpp src/spine/platform/implementations/zephyr.cpp src/spine/core/logging.cpp src/spine/platform/hal.hpp", [("delays", "src/spine/platform/implementations/zephyr.hpp: Zephyr::delay_us, delay_ms"), ("log level", "src/spine/platform/implementations/zephyr.cpp: zephyr_set_log_level"), ("logging", "src/spine/platform/implementations/zephyr.cpp: zephyr_log")])
prop("L01", "A log line shows time, level and text, cut off at its size, if its level is on",
     "A message is printed exactly if its level is up to the one set, and its arguments are evaluated only then. Its line shows the time, the level and the formatted text (for debug messages also where it came from) and ends with a newline. A message longer than the buffer is cut off there, and nothing beyond the buffer is touched.",
     "inputs configurations", "for every pair of levels, text content and length, number and moment stated",
     "The repository has no test of logging; overruns depend on the length of the text relative to what precedes it.",
     "src/spine/core/logging.cpp src/spine/core/logging.hpp src/spine/platform/platform.hpp", [("printing", "src/spine/core/logging.cpp: detail::print"), ("levels", "src/spine/core/logging.cpp: is_loggable; src/spine/core/logging.hpp: SPN_LOG_IMPL"), ("formatted printing", "src/spine/platform/platform.hpp: Platform::printf")])
prop("L02", "Exceptions and failed assertions reach the handler set last, once each",
     "Throwing an exception calls the handler set last exactly once, with that exception, and logs its type and message. Setting a handler hands back the previous one without destroying it. In a debug build an assertion evaluates its condition once and throws exactly if it does not hold, and an expectation never throws.",
     "inputs histories configurations", "for every sequence of throwing, asserting and setting handlers of the stated length, and every value asserted on",
     "The repository has no test of exceptions; which handler is called depends on the history of setting them.",
     "src/spine/core/exception.cpp src/spine/core/exception.hpp src/spine/core/debugging.hpp", [("handlers", "src/spine/core/exception.cpp: set_machine_exception_handler, throw_error"), ("assertions", "src/spine/core/debugging.hpp: spn_assert, spn_expect")])
prop("U02", "Real units and their ratios keep amounts across magnitudes, order and arithmetic",
     "Converting a real unit to another magnitude, or a ratio of units to another pair of magnitudes, keeps the amount up to rounding. Sums, differences and comparisons work on amounts, whatever the magnitudes of the operands. Dividing by zero throws, and simplifying a ratio keeps its value.",
     "inputs configurations", "for every value within the stated range and every stated pair of magnitudes of every unit",
     "The tests convert a few literal values; a wrong factor of one magnitude, or a comparison or sum that forgets to convert, shows only for that pair.",
     S + "units/primitives/unit.hpp " + S + "units/primitives/compound_unit.hpp " + S + "units/primitives/magnitudes.hpp", [("conversion", S + "units/primitives/unit.hpp: Unit::from_other"), ("ratios", S + "units/primitives/compound_unit.hpp"), ("magnitudes", S + "units/primitives/magnitudes.hpp")])
prop("S08", "Points calculate by coordinate; joined texts keep every character in order",
     "Sums, differences, products, quotients and remainders of points are taken coordinate by coordinate, leaving the operands alone, and points are equal exactly if all coordinates are. The length is the distance from the origin, and normalising keeps the direction. A pair holds what it was given, and joining texts at compile time yields all their characters in order, ended by one 0.",
     "inputs", "for every coordinate and character within the stated bounds",
     "The tests calculate with one or two literal points; a coordinate mixed up shows only where coordinates differ.",
     S + "point.hpp src/spine/core/utils/concatenate.hpp " + S + "tuple.hpp", [("points", S + "point.hpp"), ("joining", "src/spine/core/utils/concatenate.hpp: concat")])
prop("S09", "A stack hands its elements back in reverse order",
     "The top of a stack is always the element that was pushed last and not yet popped, its size counts the elements left, and any number up to the capacity can be pushed. Pushing leaves the variable pushed as it was, writing to the top changes that element alone. Popping releases the element, and the stack releases those left.",
     "inputs histories", "for every sequence of pushes and pops and all element values within the stated bounds",
     "The tests do not use the stack at all; order and release depend on the history of pushes and pops.",
     S + "stack.hpp " + S + "vector.hpp", [("stack", S + "stack.hpp: Stack")])
prop("D01", "A debug build behaves like a release build and asserts only on misuse",
     "Built for debugging, the containers, stacks, buffers, pools, results, timers, futures, events, streams, transactions, filters and outputs do exactly what they do in a release build. No assertion fires as long as they are used as documented, up to and including the limits they document: filling a container completely, replying exactly what fits, taking the last element.",
     "inputs histories", "for every value and sequence of operations covered by the checks of those parts, in a build with assertions and debug messages",
     "The tests run once with assertions on a few sequences; an assertion that is off by one at a limit, or has an effect of its own, only shows at that limit.",
     "src/spine/core/debugging.hpp " + S + "vector.hpp " + S + "pool.hpp src/spine/eventsystem/pipeline.cpp src/spine/eventsystem/eventsystem.cpp " + IO + "transaction.cpp", [("assertions", "src/spine/core/debugging.hpp: spn_assert"), ("asserted limits", IO + "transaction.cpp: Transaction::outgoing"), ("asserted order", "src/spine/eventsystem/pipeline.cpp: Pipeline::push, expire")])
