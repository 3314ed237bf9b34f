// C35: a unit that includes only what it must, after much of the standard library
#define UNIT unit_3
#define UNIT_NO 3
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <mutex>
#include <pthread.h>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
using namespace std;    // what many users write
#include <xitren/func/interval_event.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/packet.hpp>
#define comm comm_static
#include <xitren/comm/observer_static.hpp>
#undef comm
#include "unit_body.hpp"
