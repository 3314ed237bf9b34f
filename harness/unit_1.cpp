// C35: a unit that includes the headers in one order, twice
#define UNIT unit_1
#define UNIT_NO 1
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/exceptions.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/observer_errors.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/data.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/interval_event.hpp>
#include <xitren/func/log_adapter.hpp>
#include <xitren/func/packet.hpp>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/func/packet.hpp>
// the compile-time observers use the names of the run-time ones: give them a namespace of their own
#define comm comm_static
#include <xitren/comm/observer_static.hpp>
#undef comm
#include "unit_body.hpp"
