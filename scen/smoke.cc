#include "sim.h"
#include <gul14/Trigger.h>
#include <gul14/ThreadPool.h>
#include <thread>
static void smoke()
{
    auto pool = gul14::make_thread_pool(1 + sim_gen(3));
    int n = 1 + sim_gen(4);
    std::vector<gul14::ThreadPool::TaskHandle<int>> hs;
    for (int i = 0; i < n; i++)
        hs.push_back(pool->add_task([i] { sim_rec(1, i, 0, 0, 0); return i; }));
    for (int i = 0; i < n; i++) if (hs[i].get_result() != i) sim_fail("x", "y");
    pool.reset();
}
static SimScenario s{ "smoke", smoke, FM_SPUR | FM_SKIP | FM_JUMP | FM_STALL | FM_WAKE, 1, 0, nullptr };
static int reg = (sim_register(&s), 0);
