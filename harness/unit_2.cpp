// C35: a unit that includes the headers in the opposite order
#define UNIT unit_2
#define UNIT_NO 2
#define comm comm_static
#include <xitren/comm/observer_static.hpp>
#undef comm
#include <xitren/func/packet.hpp>
#include <xitren/func/log_adapter.hpp>
#include <xitren/func/interval_event.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/data.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/comm/values/observed.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/observer_errors.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/cache/exceptions.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/allocators/static_heap.hpp>
#include "unit_body.hpp"
