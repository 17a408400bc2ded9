//@ bounds the harnesses of the properties named, in a debug build, with each of their bounds above 2 lowered by one (thorough: the quick bounds of those properties)
//@ assume what those properties assume
//@ outside what those properties leave out; steps outside of documented use (adding to a full vector, scheduling for now, a reply that does not fit): there an assertion may fire, and what happens next is compared all the same
//@ defs -DDEBUG_SPINE
//@ harness h_array_basic
//@ harness h_array_owner
//@ harness h_vector_ops parts=4 pdepth=4
//@ harness h_vector_iter
//@ harness h_vector_lists
//@ harness h_vector_objects parts=4 pdepth=4
//@ harness h_ring_ops parts=4 pdepth=4
//@ harness h_line_ops parts=4 pdepth=4
//@ harness h_pool_cycle
//@ harness h_pool_lifetime
//@ harness h_result_distinct
//@ harness h_result_same
//@ harness h_result_chain
//@ harness h_static_string
//@ harness h_alarm
//@ harness h_interval
//@ harness h_timer
//@ harness h_pipeline parts=4 pdepth=6
//@ harness h_again
//@ harness h_armed
//@ harness h_future
//@ harness h_events parts=6 pdepth=6
//@ harness h_nested
//@ harness h_data
//@ harness h_attach
//@ harness h_pipeline_text
//@ harness h_delay
//@ harness h_input parts=4 pdepth=6
//@ harness h_output parts=4 pdepth=6
//@ harness h_transaction parts=6 pdepth=6
//@ harness h_sampling
//@ harness h_many
//@ harness h_invert qtimeout=3000
//@ harness h_pass
//@ harness h_slots
//@ harness h_digital
//@ harness h_fades
//@ harness h_slow steps=20000000
//@ harness h_value
//@ harness h_uart
//@ harness h_array_wide steps=60000000
//@ harness h_vector_wide steps=60000000
//@ harness h_ring_wide steps=60000000
//@ harness h_line_wide steps=60000000
//@ harness h_pool_wide steps=60000000
//@ harness h_text_wide steps=60000000
//@ harness h_pipeline_wide steps=60000000
//@ harness h_events_wide steps=60000000
//@ harness h_input_wide steps=60000000
//@ harness h_output_wide steps=60000000
//@ harness h_transaction_wide steps=60000000
//@ harness h_stack_ops parts=2 pdepth=3
//@ harness h_stack_objects parts=2 pdepth=3
//@ harness h_stack_wide
#include "sym.h"
// every harness runs with a handler that counts assertions
static int g_asserts;
#define LEGAL(c) do { if (!(c)) g_asserts = 0; CHECK(g_asserts == 0, "no assertion fires on documented use"); } while (0)
#define ONLY_LEGAL(c) sym_assume(c)
#include <algorithm>
#include <climits>
#include <cstring>
#include <ctime>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include "ref.h"
#include "clock.h"
#include "stream.h"
#include "spine/controller/pid.hpp"
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/eventsystem/pipeline.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/vector.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/platform/gpio.hpp"
#include "spine/platform/hal.hpp"
struct Counter : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { g_asserts++; }
};
static void install() { g_asserts = 0; spn::core::set_machine_exception_handler(std::make_unique<Counter>()); }
#undef HARNESS
#define HARNESS(name) static void body_##name(); extern "C" void name() { install(); body_##name(); LEGAL(true); } static void body_##name()
#undef QT
#define QT(q, t) (THOROUGH ? (q) : ((q) > 2 ? (q) - 1 : (q)))
namespace s01 {
#include "S01.cpp"
}
namespace s02 {
#include "S02.cpp"
}
namespace s03 {
#include "S03.cpp"
}
namespace s04 {
#include "S04.cpp"
}
namespace s05 {
#include "S05.cpp"
}
namespace s06 {
#include "S06.cpp"
}
namespace s07 {
#include "S07.cpp"
}
namespace s09 {
#include "S09.cpp"
}
namespace t01 {
#include "T01.cpp"
}
namespace e01 {
#include "E01.cpp"
}
namespace e02 {
#include "E02.cpp"
}
namespace e03 {
#include "E03.cpp"
}
namespace i01 {
#include "I01.cpp"
}
namespace i02 {
#include "I02.cpp"
}
namespace i03 {
#include "I03.cpp"
}
namespace c02 {
#include "C02.cpp"
}
namespace c04 {
#include "C04.cpp"
}
namespace f03 {
#include "F03.cpp"
}
namespace f04 {
#include "F04.cpp"
}
namespace p02 {
#include "P02.cpp"
}
namespace p03 {
#include "P03.cpp"
}
