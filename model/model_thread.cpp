// threads: the engine schedules them
#include <cstdint>
#include <stdexcept>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
extern "C" uint64_t esx_thread(void (*)(void *), void *);
extern "C" void esx_join(uint64_t);
extern "C" void esx_fail(const char *);
static void esx_run_thread(void *p)
{
    std::thread::_State_ptr s((std::thread::_State *)p);
    s->_M_run();
}
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id((native_handle_type)esx_thread(esx_run_thread, s.release())); }
void thread::join()
{
    if(_M_id == id()) throw std::runtime_error("join of no thread");
    esx_join(_M_id._M_thread);
    _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { _M_cond.wait(*l.mutex()); }
void condition_variable::notify_one() noexcept { _M_cond.notify_one(); }
void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { (*__once_call)(); }
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
}
extern "C" int pthread_once(pthread_once_t *o, void (*f)()) noexcept(false)
{
    if(__atomic_load_n(o, __ATOMIC_SEQ_CST) == 2) return 0;
    __atomic_store_n(o, 2, __ATOMIC_SEQ_CST);
    f();
    return 0;
}
