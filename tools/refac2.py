# A second set of behaviour-preserving rewrites of /repo's sources (applied to a copy at /tmp/refrepo); the checks must stay quiet on them.
import sys,os
R='/tmp/refrepo/'; D='include/boost/sync/detail/'; L='include/boost/sync/locks/'
def sub(f,*prs,once=False):
    p=R+f; s=open(p).read()
    for a,b in prs:
        assert a in s,(f,a); s=s.replace(a,b,*((1,) if once else ()))
    open(p,'w').write(s)
# emulated events: notification after the unlock, different counters, explicit loops
sub(D+'events/auto_reset_event_emulation.hpp',('''        sync::lock_guard< sync::mutex > lock(m_mutex);
        // There must be a post for every blocked thread, plus one that leaves the event set
        if (m_posts <= m_waiters)
        {
            ++m_posts;
            m_cond.notify_one();
        }''','''        sync::unique_lock< sync::mutex > lock(m_mutex);
        const bool effective = m_posts < m_waiters + 1u;
        if (effective)
            m_posts += 1u;
        lock.unlock();
        if (effective)
            m_cond.notify_one();'''),('''        waiter_guard waiter(m_waiters);
        while (m_posts == 0)
            m_cond.wait(lock);

        --m_posts;''','''        if (m_posts == 0u)
        {
            waiter_guard waiter(m_waiters);
            do
            {
                m_cond.wait(lock);
            }
            while (!m_posts);
        }

        m_posts = m_posts - 1u;'''),('''        sync::lock_guard< sync::mutex > lock(m_mutex);
        const bool res = m_posts > 0;
        if (res)
            --m_posts;
        return res;''','''        sync::unique_lock< sync::mutex > lock(m_mutex);
        if (m_posts == 0u)
            return false;
        --m_posts;
        return true;'''))
sub(D+'events/manual_reset_event_emulation.hpp',('''        sync::lock_guard< sync::mutex > lock(m_mutex);
        const bool already_signaled = m_is_set;
        if (!already_signaled)
        {
            m_is_set = true;
            m_cond.notify_all();
        }''','''        {
            sync::lock_guard< sync::mutex > lock(m_mutex);
            m_is_set = true;
        }
        m_cond.notify_all();'''),('''        while (!m_is_set)
            m_cond.wait(lock);''','''        m_cond.wait(lock, is_set(m_is_set));'''))
# try first, then the blocking call; retry loop rewritten
sub(D+'semaphore/semaphore_posix.hpp',('''        for (;;)
        {
            const int status = sem_wait(&m_sem);
            if (status == 0)
                return;

            switch (errno)
            {
            case EINTR: // interrupted by a signal handler
                continue;

            case EINVAL:
            default:
                // we should not reach here
                BOOST_ASSERT(false);
                return;
            }
        }''','''        if (sem_trywait(&m_sem) == 0)
            return;

        int status;
        do
        {
            status = sem_wait(&m_sem);
        }
        while (status != 0 && errno == EINTR);
        BOOST_ASSERT(status == 0);'''),('''            const int status = sem_timedwait(&m_sem, &t.get());
            if (status == 0)''','''            int status = sem_trywait(&m_sem);
            if (status != 0)
                status = sem_timedwait(&m_sem, &t.get());
            if (status == 0)'''),('''        const int status = sem_post(&m_sem);
        if (status == 0)
            return;

        const int err = errno;''','''        if (sem_post(&m_sem) == 0)
            return;

        const int err(errno);'''))
# futex events: short spinning before blocking, helper for the two loops
sub(D+'events/auto_reset_event_futex.hpp',('''        // Try the fast path first
        if (this->try_wait())
            return;
''','''        // Try the fast path first
        for (unsigned int i = 0; i < 3u; ++i)
        {
            if (this->try_wait())
                return;
            detail::pause();
        }
'''),('''                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
                    return;
''','''                if (m_state.compare_exchange_strong(old_state, old_state, detail::atomic_ns::memory_order_acq_rel, detail::atomic_ns::memory_order_relaxed))
                    return;
'''))
sub(D+'events/manual_reset_event_futex.hpp',('''        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
        while''','''        for (int i = 0; i < 2; ++i)
        {
            if (this->try_wait())
                return;
            detail::pause();
        }
        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
        while'''),once=True)
# emulated semaphore: the broadcast is a legal substitute for the signal; counts by hand
sub(D+'semaphore/semaphore_emulation.hpp',('''        ++m_count;
        m_cond.notify_one();''','''        if (m_count++ == 0)
            m_cond.notify_all();
        else
            m_cond.notify_one();'''))
# pthread mutex: helpers
sub(D+'mutexes/mutex_posix.hpp',('''        int const res = sync::detail::posix::pthread_mutex_lock(&m_mutex);
''','''        int res = sync::detail::posix::pthread_mutex_trylock(&m_mutex);
        if (res == EBUSY)
            res = sync::detail::posix::pthread_mutex_lock(&m_mutex);
'''))
sub(D+'mutexes/timed_mutex_posix.hpp',('''        while (m_is_locked)
        {
            int const cond_res = sync::detail::posix::pthread_cond_timedwait(&m_cond, &m_mutex, &t.get());
            if (cond_res == ETIMEDOUT)
            {
                if (!m_is_locked)
                    break;
                else
                    return false;
            }
            else if''','''        for (; m_is_locked;)
        {
            int const cond_res = sync::detail::posix::pthread_cond_timedwait(&m_cond, &m_mutex, &t.get());
            if (cond_res == ETIMEDOUT)
            {
                const bool acquired = !m_is_locked;
                m_is_locked = true;
                return acquired;
            }
            else if'''),('''        m_is_locked = false;
        BOOST_VERIFY(pthread_cond_signal(&m_cond) == 0);''','''        m_is_locked = false;
        BOOST_VERIFY(pthread_cond_broadcast(&m_cond) == 0);'''),('''        int const res = sync::detail::posix::pthread_mutex_timedlock(&m_mutex, &t.get());
''','''        int res = sync::detail::posix::pthread_mutex_trylock(&m_mutex);
        if (res == EBUSY)
            res = sync::detail::posix::pthread_mutex_timedlock(&m_mutex, &t.get());
'''))
# condition variables
sub(D+'condition_variables/condition_variable_any_generic.hpp',('''        sync::lock_guard< sync::mutex > internal_lock(m_mutex);
        m_cond.notify_one();''','''        sync::unique_lock< sync::mutex > internal_lock(m_mutex);
        internal_lock.unlock();
        m_cond.notify_one();'''),('''        while (!pred())
        {
            if (!this->timed_wait(lock, t))
                return pred();
        }
        return true;''','''        for (bool in_time = true; in_time; in_time = this->timed_wait(lock, t))
        {
            if (pred())
                return true;
        }
        return pred();'''))
sub(D+'condition_variables/condition_variable_posix.hpp',('''        pthread_mutex_t* const mtx = lock.mutex()->native_handle();
        while (!pred())
            this->priv_wait(mtx);''','''        while (true)
        {
            if (pred())
                break;
            this->wait(lock);
        }'''),('''        BOOST_VERIFY(::pthread_cond_signal(&m_cond) == 0);''','''        int const res = ::pthread_cond_signal(&m_cond);
        BOOST_VERIFY(res == 0);
        (void)res;'''),('''        if (res == ETIMEDOUT)
            return sync::cv_status::timeout;
        else if (BOOST_UNLIKELY(res != 0))
            BOOST_SYNC_DETAIL_THROW(wait_error, (res)("condition_variable::timed_wait failed in pthread_cond_timedwait"));
        return sync::cv_status::no_timeout;''','''        if (BOOST_UNLIKELY(res != 0 && res != ETIMEDOUT))
            BOOST_SYNC_DETAIL_THROW(wait_error, (res)("condition_variable::timed_wait failed in pthread_cond_timedwait"));
        return res == 0 ? sync::cv_status::no_timeout : sync::cv_status::timeout;'''))
# spin mutexes: seq_cst, strong CAS, exchange instead of CAS
sub(D+'mutexes/spin_mutex.hpp',('''            while( state.load(detail::atomic_ns::memory_order_relaxed) != (bool)unlocked_state )
                detail::pause();

            if (try_lock())
                break;''','''            if (state.load(detail::atomic_ns::memory_order_relaxed) == (bool)unlocked_state && try_lock())
                break;
            detail::pause();'''))
# thread specific storage
sub('src/tss_manager.hpp',('''    std::stack< thread_specific_key > m_freed_keys;''','''    std::vector< thread_specific_key > m_freed_keys;'''),
 ('''            key = m_freed_keys.top();
            m_freed_keys.pop();''','''            key = m_freed_keys.front();
            m_freed_keys.erase(m_freed_keys.begin());'''),
 ('''m_freed_keys.push(key)''','''m_freed_keys.push_back(key)'''),
 ('''            std::vector< void* > storage;
            const at_thread_exit_callback cleanup''','''            std::vector< void* > storage;
            storage.reserve(4u);
            const at_thread_exit_callback cleanup'''),
 ('''        for (std::size_t key = 0, n = p->m_storage.size(); key < n; ++key)
        {
            if (p->m_storage[key])
            {''','''        for (std::size_t key = p->m_storage.size(); key-- > 0u; )
        {
            if (p->m_storage[key] != NULL)
            {'''),
 ('''            p->m_storage.resize(key + 1, static_cast< void* >(NULL));''','''            std::vector< void* > grown(key + 8, static_cast< void* >(NULL));
            std::copy(p->m_storage.begin(), p->m_storage.end(), grown.begin());
            p->m_storage.swap(grown);'''),
 ('''#include <boost/sync/detail/tss.hpp>
''','''#include <algorithm>
#include <boost/sync/detail/tss.hpp>
'''),
 ('''        thread_context* p = new thread_context();

        sync::lock_guard< mutex_type > lock(m_mutex);
        m_thread_contexts.push_back(*p);
''','''        thread_context* const p = new thread_context();
        {
            sync::lock_guard< mutex_type > lock(m_mutex);
            m_thread_contexts.push_front(*p);
        }
'''))
# time arithmetic
sub(D+'time_units.hpp',('''        int64_t tv_sec = dur.get() / fraction;
        int64_t tv_nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % fraction;
        if (tv_nsec < 0)
        {
            tv_nsec += fraction;
            --tv_sec;
        }
        else if (tv_nsec >= fraction)
        {
            tv_nsec -= fraction;
            ++tv_sec;
        }''','''        int64_t tv_sec = dur.get() / fraction, rest = dur.get() % fraction;
        if (rest < 0)
        {
            rest += fraction;
            tv_sec -= 1;
        }
        int64_t tv_nsec = rest + m_value.tv_nsec;
        if (tv_nsec >= fraction)
        {
            tv_sec += 1;
            tv_nsec -= fraction;
        }'''))
# locks
sub(L+'shared_lock.hpp',('''        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
    {
        that.m_mutex = NULL;
        that.m_is_locked = false;
    }''','''        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
    {
        that.release();
    }'''),('''        m_is_locked = m_mutex->try_lock_shared();

        return m_is_locked;''','''        bool const res = m_mutex->try_lock_shared();
        m_is_locked = res;
        return res;'''),('''        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
    {
        if (m_is_locked)
            m_mutex->unlock_and_lock_shared();
        that.release();
    }''','''        m_mutex(that.mutex()), m_is_locked(false)
    {
        if (that.owns_lock())
        {
            m_mutex->unlock_and_lock_shared();
            m_is_locked = true;
        }
        that.release();
    }'''))
sub(L+'unique_lock.hpp',('''        m_is_locked = m_mutex->try_lock();

        return m_is_locked;''','''        return m_is_locked = m_mutex->try_lock();'''))
# once in Windows' thread specific storage
sub('src/tss_windows.cpp',('''            long old_val = BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 1, 0);
            if (old_val == 2)
                break;
            else if (old_val == 1)
                SwitchToThread();
            else
            {
                init_tss(NULL, NULL, NULL);
                BOOST_INTERLOCKED_EXCHANGE(&init_tss_once_flag, 2);
                break;
            }''','''            switch (BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 1, 0))
            {
            case 0:
                init_tss(NULL, NULL, NULL);
                BOOST_INTERLOCKED_EXCHANGE(&init_tss_once_flag, 2);
                return;

            case 1:
                SwitchToThread();
                break;

            default:
                return;
            }'''))
sub('src/tss_pthread.cpp',('''    tss_manager::thread_context* ctx = get_thread_context();
    if (ctx)
        return ctx->get_value(key);
    return NULL;''','''    tss_manager::thread_context* const ctx = get_thread_context();
    return ctx != NULL ? ctx->get_value(key) : NULL;'''))
# Windows
sub(D+'semaphore/semaphore_windows.hpp',('''        if (boost::winapi::WaitForSingleObject(m_sem, boost::winapi::infinite) != boost::winapi::wait_object_0)
        {''','''        const boost::winapi::DWORD_ res = boost::winapi::WaitForSingleObject(m_sem, boost::winapi::infinite);
        if (BOOST_UNLIKELY(res != boost::winapi::wait_object_0))
        {'''))
sub(D+'mutexes/basic_mutex_windows.hpp',('''        return !m_active_count.bit_test_and_set(lock_flag_bit, boost::memory_order_acquire);''','''        return (m_active_count.fetch_or(static_cast< boost::uint32_t >(lock_flag_value), boost::memory_order_acquire) & lock_flag_value) == 0u;'''))
